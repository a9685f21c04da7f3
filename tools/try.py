#!/usr/bin/env python3
"""try.py <patch | - > <property>...: runs checks on a scratch copy of /repo with a patch applied (development aid)."""
import os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/tmp/try/repo'
def main():
    patch, props = sys.argv[1], sys.argv[2:]
    if not os.path.exists(R):
        os.makedirs('/tmp/try', exist_ok=True)
        subprocess.run(['git', 'clone', '-q', '/repo', R], check=True)
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
    if patch != '-':
        r = subprocess.run(['git', '-C', R, 'apply', os.path.abspath(patch)])
        if r.returncode:
            print('PATCH DOES NOT APPLY', patch); return 3
    e = dict(os.environ, VERIF_REPO=R, VERIF_BUILD='/tmp/trybuild', VERIF_EVIDENCE='/tmp/try/evidence')
    if props == ['all']:
        sys.path.insert(0, V)
        from sa.registry import CHECKS
        props = list(CHECKS)
    from concurrent.futures import ThreadPoolExecutor
    def run(p):
        return p, subprocess.run(['python3', os.path.join(V, 'check.py'), p], env=e, capture_output=True, text=True)
    first = [run(props[0])]
    with ThreadPoolExecutor(7) as ex:
        res = first + list(ex.map(run, props[1:]))
    bad = []
    for p, r in res:
        if r.returncode:
            bad.append(p)
            if os.environ.get('V'):
                print((r.stdout + r.stderr)[-int(os.environ['V']):])
    print(patch, 'FAIL: ' + ' '.join(bad) if bad else 'all quiet')
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
main()
