"""mkseed.py <id> <property> <file> <<< json {needs, breaks, subs: [[old,new]..]}: writes seeded/<id>/patch.diff and meta.json."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(id, prop, subs, needs, breaks, repo='/repo'):
    for f, old, new in subs:
        p = repo + '/' + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = HERE + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', repo, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
