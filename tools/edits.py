#!/usr/bin/env python3
"""edits.py <file of edits> [name...]: applies each edit to a scratch copy of /repo and runs the checks (development aid).
An edits file is Python: EDITS = [(name, expected properties or None for a refactoring, [(file, old, new)...])...]"""
import importlib.util, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
BASE = os.environ.get('SLOTS', '/tmp/try2')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.registry import CHECKS


def main():
    spec = importlib.util.spec_from_file_location('edits', sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    names = [a for a in sys.argv[2:] if not a.startswith('-')]
    todo = [e for e in mod.EDITS if not names or any(n in e[0] or n in (e[1] or '').split() for n in names)]
    W = int(os.environ.get('W', 6))

    def one(arg):
        slot, (name, want, edits) = arg
        R = BASE + '/%d/repo' % slot
        B = BASE + '/%d/build' % slot
        if not os.path.exists(R):
            os.makedirs(os.path.dirname(R), exist_ok=True)
            subprocess.run(['cp', '-a', '/tmp/try/repo', R], check=True)
            subprocess.run(['cp', '-a', '/tmp/trybuild', B], check=True)
        subprocess.run(['git', '-C', R, 'fetch', '-q', '/repo', 'HEAD'], check=True)
        subprocess.run(['git', '-C', R, 'checkout', '-q', '-f', 'FETCH_HEAD'], check=True)
        for f, old, new in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, 'EDIT DOES NOT APPLY: %s %r' % (f, old[:60])
            open(p, 'w').write(s.replace(old, new))
        env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B, VERIF_EVIDENCE=BASE + '/%d/evidence' % slot)
        bad, msgs = [], []
        only = [a[2:] for a in sys.argv if a.startswith('-p')]
        props = only or (want.split() if want and '-a' not in sys.argv else list(CHECKS))
        r = subprocess.run(['python3', os.path.join(V, 'tools', 'checkall.py')] + [p for p in props if p in CHECKS], env=env, capture_output=True, text=True)
        if r.returncode == 2 or 'DOES NOT COMPILE' in r.stdout:
            return name, 'DOES NOT COMPILE ' + (r.stdout + r.stderr)[-600:]
        for l in r.stdout.splitlines():
            if l.startswith('FAIL'):
                bad.append(l.split()[1])
            if want is None or '-v' in sys.argv:
                msgs.append('      ' + l[:330])
        if want is None:
            st = 'quiet' if not bad else 'FALSE ALARM ' + ' '.join(bad)
        else:
            st = ('caught ' if any(w in bad for w in want.split()) else 'OTHER  ' if bad else 'MISSED ') + '(%s) by %s' % (want, ' '.join(bad))
        return name, '\n'.join([st] + msgs)
    slots = list(range(W))
    import queue
    q = queue.Queue()
    for s in slots:
        q.put(s)

    def run(e):
        s = q.get()
        try:
            return one((s, e))
        finally:
            q.put(s)
    with ThreadPoolExecutor(W) as ex:
        for name, st in ex.map(run, todo):
            print('%-28s %s' % (name, st), flush=True)


main()
