#!/usr/bin/env python3
"""matrix.py: which check catches which planted bug; rewrites section 6 of DESIGN.md (development aid, ~15 min)."""
import json, os, queue, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = int(os.environ.get('W', 6))
slots = queue.Queue()
for i in range(W):
    slots.put(i)


def one(s):
    slot = slots.get()
    try:
        R, B = '/tmp/try2/%d/repo' % slot, '/tmp/try2/%d/build' % slot
        if not os.path.exists(R):
            os.makedirs(os.path.dirname(R), exist_ok=True)
            subprocess.run(['cp', '-a', '/tmp/try/repo', R], check=True)
            subprocess.run(['cp', '-a', '/tmp/trybuild', B], check=True)
        subprocess.run(['git', '-C', R, 'fetch', '-q', '/repo', 'HEAD'], check=True)
        subprocess.run(['git', '-C', R, 'checkout', '-q', '-f', 'FETCH_HEAD'], check=True)
        subprocess.run(['git', '-C', R, 'apply', os.path.join(V, 'seeded', s, 'patch.diff')], check=True)
        r = subprocess.run(['python3', os.path.join(V, 'tools', 'checkall.py')], env=dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B), capture_output=True, text=True)
        return s, [l.split()[1] for l in r.stdout.splitlines() if l.startswith('FAIL')]
    finally:
        slots.put(slot)


with ThreadPoolExecutor(W) as ex:
    rows = list(ex.map(one, sorted(os.listdir(V + '/seeded'))))
p = V + '/DESIGN.md'
s = open(p).read().split('\n## 6. ')[0].rstrip('\n')
s += '\n\n## 6. Which check catches which planted bug\n\nWritten by `tools/matrix.py`.  The check of the property itself comes first.\n\n| planted bug | what it needs | caught by |\n|---|---|---|\n'
for n, c in rows:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, n)))
    own = m['property']
    s += '| %s | %s | %s |\n' % (n, m['needs'].replace('|', '\\|'), ', '.join(([own] if own in c else ['(not by %s)' % own]) + [x for x in c if x != own]))
    if own not in c:
        print('NOT CAUGHT', n, c)
open(p, 'w').write(s)
