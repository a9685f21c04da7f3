#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property of /repo's current source."""
import json, os, sys, time, traceback
if os.environ.get('PYTHONHASHSEED') != '0':      # the same run every time
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(50000)
import threading
from sa import base
from sa.registry import CHECKS


def known():
    f = os.path.join(base.VERIF, 'known-findings.txt')
    out = []
    for l in open(f):
        l = l.strip()
        if l.startswith('finding:'):
            head, _, text = l[len('finding:'):].strip().partition(' | ')
            out.append((head.strip(), text))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = CHECKS[prop]
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(base.VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, prop + '.violations.txt')
    if os.path.exists(rep):
        os.remove(rep)
    try:
        dump, sh = base.extract()
    except base.Broken as e:
        print('ERROR:', e)
        return 2
    ctx = base.Ctx(dump, sh, prop, tier, spec.get('also', ()))
    for fn in spec['rules']:
        t = time.time()
        try:
            fn(ctx)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ctx.ob('analysis', fn.__name__, False, 'the source could not be analysed, so this obligation is not discharged: %s: %s (%s:%s)'
                   % (type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        ctx.stats['t_' + fn.__name__] = round(time.time() - t, 2)
    kn = {h: t for h, t in known() if h.startswith('property=%s ' % prop)}
    bad, found = [], []
    for r, i, detail, site in ctx.failures():
        h = 'property=%s rule=%s at=%s' % (prop, r, i)
        if h in kn:
            found.append((h, kn[h]))
        else:
            bad.append((r, i, detail, site))
    for h, t in found:
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    rules = {}
    for (r, i), o in sorted(ctx.obs.items()):
        d = rules.setdefault(r, dict(rule=ctx.rule_text.get(r, ''), instances=0, evaluated=0, failed=0, where=[]))
        d['instances'] += 1
        d['evaluated'] += o[3]
        d['failed'] += not o[0]
        if len(d['where']) < 12:
            d['where'].append(i + (' (%s)' % o[2] if o[2] else ''))
    n = len(ctx.obs)
    cov = dict(
        explanation=spec['how'],
        obligations=n, discharged=n - len(ctx.failures()),
        checker_cmd='python3 check.py ' + prop,
        trusted_base=TRUSTED,
        source_sha256=sh,
        functions_analysed=sorted(ctx.functions),
        engine=dict(sorted(ctx.stats.items())),
        rules=rules,
        samples=['%s %s: %s' % (r, i, 'holds' if o[0] else 'FAILS: ' + o[1]) for (r, i), o in sorted(ctx.obs.items())[:8]],
    )
    json.dump(dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'other'), coverage=cov,
                   assumptions=spec.get('assumes', []), wall_s=round(time.time() - t0, 2), violations=len(bad)),
              open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    if bad:
        with open(rep, 'w') as f:
            for r, i, detail, site in bad:
                f.write('rule %s: %s\n  instance: %s\n  at: %s\n  %s\n\n' % (r, ctx.rule_text.get(r, ''), i, site, detail))
        for r, i, detail, site in bad[:20]:
            print('%s [%s] %s %s: %s' % (prop, r, i, site, detail))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(rep, base.VERIF)))
        return 1
    print('%s holds: %d obligations over %d functions (%.1fs)' % (prop, n, len(ctx.functions), time.time() - t0))
    return 0


TRUSTED = ['rustc (parsing, type checking, MIR construction, trait resolution)', 'the MIR dump in driver/',
           'the abstract interpreter sa/engine.py and its models of std, arc, parking_lot, fxhash, bitset_fixed and crossbeam in sa/models.py']

if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    res = []
    th = threading.Thread(target=lambda: res.append(main()))
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
