#!/usr/bin/env python3
"""seedtable.py: rewrites the table of seeded bugs in DESIGN.md (between the two markers)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property, caught by its check | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, d)))
    rows.append('| %s | %s%s | %s | %s |' % (d, m['property'], '' if m.get('caught', True) else ' (missed)', m['what_it_breaks'], m['needs']))
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
