#!/usr/bin/env python3
"""try.py harness variant scenario cases [first] [seed]: build one harness and run it (development aid)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
h, v, sc, n = sys.argv[1:5]
first = sys.argv[5] if len(sys.argv) > 5 else '0'
seed = sys.argv[6] if len(sys.argv) > 6 else '1'
d = '/tmp/try.%s.%s' % (h, v)
os.makedirs(d, exist_ok=True)
if os.environ.get('NOBUILD') is None:
    run.build({(h, v)}, d)
env = dict(os.environ, TMPDIR=d, VH_SCRATCH=d, **run.ENV)
rc = subprocess.call([d + '/' + h + '.' + v, '--scenario', sc, '--seed', seed, '--first', first, '--cases', n, '--tier', 'quick', '--out', d + '/out.json'], env=env, cwd=d)
print('rc', rc)
if os.path.exists(d + '/out.json'): print(open(d + '/out.json').read()[:700])
