#!/usr/bin/env python3
"""checkall.py [property...]: every check in one process, sharing the analysis (development aid; prints only what fails)."""
import os, sys, time, traceback
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(50000)
import threading
from sa import base
from sa.registry import CHECKS
import check


def main():
    try:
        dump, sh = base.extract()
    except base.Broken as e:
        print('DOES NOT COMPILE', str(e)[-600:])
        return 2
    ctx = base.Ctx(dump, sh, 'C01', 'quick', ())
    kn = {h for h, t in check.known()}
    rc = 0
    for p in (sys.argv[1:] or CHECKS):
        ctx.prop, ctx.also, ctx.obs = p, set(CHECKS[p].get('also', ())), {}
        for fn in CHECKS[p]['rules']:
            try:
                fn(ctx)
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)[-1]
                ctx.ob('analysis', fn.__name__, False, 'not analysed: %s: %s (%s:%s)' % (type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno))
        bad = [f for f in ctx.failures() if 'property=%s rule=%s at=%s' % (p, f[0], f[1]) not in kn]
        if bad:
            rc = 1
            print('FAIL', p)
            for r, i, d, s in bad[:4]:
                print('   [%s] %s %s: %s' % (r, i, s, d))
        elif not any(o[0] for o in ctx.obs.values()):
            print('FAIL', p, 'no obligation')
    return rc


threading.stack_size(512 * 1024 * 1024)
res = []
th = threading.Thread(target=lambda: res.append(main()))
th.start()
th.join()
sys.stdout.flush()
os._exit(res[0] if res else 2)
