#!/usr/bin/env python3
"""apply.py <edits file> <exact name>: puts one edit into the scratch copy /tmp/try/repo (development aid);
then e.g. VERIF_REPO=/tmp/try/repo VERIF_BUILD=/tmp/trybuild tools/loops.py ..."""
import importlib.util, os, subprocess, sys
R = '/tmp/try/repo'
spec = importlib.util.spec_from_file_location('edits', sys.argv[1])
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
subprocess.run(['git', '-C', R, 'fetch', '-q', '/repo', 'HEAD'], check=True)
subprocess.run(['git', '-C', R, 'checkout', '-q', '-f', 'FETCH_HEAD'], check=True)
for name, want, edits in mod.EDITS:
    if name == sys.argv[2]:
        for f, old, new in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            assert old in s, old
            open(p, 'w').write(s.replace(old, new))
        print('applied', name)
