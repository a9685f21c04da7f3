#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/defs.py and validates each planted bug in a scratch copy.
usage: seed.py [id ...]   (-n: do not run the checks)"""
import json, os, shutil, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, os.path.join(V, 'tools', 'seeds'))
from defs import SEEDS
W = '/tmp/sw'
args = [a for a in sys.argv[1:] if not a.startswith('-')]
nochecks = '-n' in sys.argv
env = dict(os.environ, DEMO_TARGET='/tmp/dt')
env_t = dict(os.environ, CARGO_TARGET_DIR=W + '/target', CARGO_NET_OFFLINE='true')


def sh(cmd, cwd=W, env=env, t=400):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        class R: returncode = 124; stdout = 'timeout'
        return R


shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', W])
for s in SEEDS:
    if args and s['id'] not in args and s['property'] not in args:
        continue
    d = os.path.join(V, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh('git checkout -q -- .')
    bad = None
    for f, old, new, *cnt in s['edits']:
        p = os.path.join(W, f)
        t = open(p).read()
        if t.count(old) != (cnt or [1])[0]:
            bad = 'edit matches %d times: %s' % (t.count(old), old[:60])
            break
        open(p, 'w').write(t.replace(old, new))
    if bad:
        print(s['id'], 'BAD', bad); continue
    diff = sh('git diff').stdout
    open(d + '/patch.diff', 'w').write(diff)
    shutil.copy(V + '/tools/seeds/common.rs', d)
    shutil.copy(V + '/tools/seeds/demo.sh', d)
    open(d + '/main.rs', 'w').write('mod common;\nuse common::*;\nuse engineering::*;\n' + s['main'])
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    tests = sh('cargo test --workspace --offline 2>&1 | grep -E "test result|error|FAILED|failed"', env=env_t)
    tok = '11 passed' in tests.stdout and '2 passed' in tests.stdout
    r1 = sh('bash %s/demo.sh' % d)
    sh('git checkout -q -- .')
    r0 = sh('bash %s/demo.sh' % d)
    ok = tok and r0.returncode == 0 and r1.returncode not in (0, 2)
    print(s['id'], 'ok' if ok else 'NOT OK', 'tests', tok, 'clean', r0.returncode, 'patched', r1.returncode, r1.stdout.strip().split('\n')[-1][:150], flush=True)
    if not ok and '-v' in sys.argv:
        print(diff)
    if not ok:
        print((r0.stdout if r0.returncode else r1.stdout)[-1500:])
        if not tok: print(tests.stdout[-600:])
        if '-k' not in sys.argv: shutil.rmtree(d)
shutil.rmtree(W)
