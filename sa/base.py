"""Driver build, extraction of the compiler's view of /repo, obligations, verdicts, evidence."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
EXAMPLES = ('psp', 'srflp', 'tsptw')


class Broken(Exception):
    """/repo cannot be analysed (does not compile, anchors missing)"""


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()


def env(**kw):
    e = dict(os.environ)
    e.update(kw)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET_DIR', 'RUSTC'):
        e.pop(k, None)
    return e


def build_driver():
    exe = os.path.join(BUILD, 'driver', 'release', 'mirdump')
    src = sorted(glob.glob(os.path.join(VERIF, 'driver', 'src', '*.rs'))) + [os.path.join(VERIF, 'driver', 'Cargo.toml')]
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
    stamp = exe + '.stamp'
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe, h
    r = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=os.path.join(VERIF, 'driver'),
                       env=env(CARGO_TARGET_DIR=os.path.join(BUILD, 'driver')), capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-4000:])
        raise Broken('the MIR driver does not build')
    open(stamp, 'w').write(h)
    return exe, h


def source_hash():
    h = hashlib.sha256()
    files = []
    for top in ('src', 'examples'):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ('Cargo.toml', 'Cargo.lock', 'build.rs') if os.path.exists(os.path.join(REPO, f))]
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        h.update(open(f, 'rb').read() + b'\0')
    return h.hexdigest()


def extract():
    """dump directory for the current working tree of /repo"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dh = build_driver()
        sh = source_hash()
        out = os.path.join(BUILD, 'dump-' + hashlib.sha256((dh + sh).encode()).hexdigest()[:16])
        want = [os.path.join(out, n + '.jsonl') for n in ('engineering',) + EXAMPLES]
        if os.path.exists(os.path.join(out, 'done')) and all(os.path.exists(w) for w in want):
            return out, sh
        for d in sorted(glob.glob(os.path.join(BUILD, 'dump-*')), key=os.path.getmtime)[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        tgt = os.path.join(BUILD, 't')
        # force rustc (and so the driver) to run again on the workspace's own crates
        for pat in ('build/engineering', '.fingerprint/engineering-*') + tuple('.fingerprint/%s-*' % e for e in EXAMPLES):
            for d in glob.glob(os.path.join(tgt, 'debug', pat)):
                shutil.rmtree(d, ignore_errors=True)
        lib = sysroot() + '/lib'
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--examples'], cwd=REPO, capture_output=True, text=True,
                           env=env(MIRDUMP_OUT=tmp, LD_LIBRARY_PATH=lib, RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=tgt))
        if r.returncode:
            sys.stderr.write(r.stderr[-4000:])
            raise Broken('/repo does not compile')
        for w in want:
            if not os.path.exists(w.replace(out, tmp)):
                raise Broken('no dump for ' + os.path.basename(w))
        if source_hash() != sh:
            raise Broken('/repo changed during the analysis')
        open(os.path.join(tmp, 'done'), 'w').write(sh)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return out, sh


class Ctx:
    """analysis context of one check run"""

    def __init__(self, dump, sh, prop, tier='quick', also=()):
        from .ir import Prog
        self.dump, self.sh, self.prop, self.tier, self.also = dump, sh, prop, tier, set(also)
        self._progs = {}
        self._runs = {}
        self.obs = {}          # (rule, instance) -> [ok, detail, site]
        self.events = 0
        self.rule_text = {}
        self.functions = set()
        self.stats = {}

    def prog(self, name='engineering'):
        from .ir import Prog
        if name not in self._progs:
            files = [os.path.join(self.dump, 'engineering.jsonl')]
            if name != 'engineering':
                files.append(os.path.join(self.dump, name + '.jsonl'))
            self._progs[name] = Prog(files)
        return self._progs[name]

    def run(self, fid, cut=None, prog='engineering', **kw):
        """abstract interpretation of one entry point (cached)"""
        from .engine import Engine
        key = (prog, fid, cut, tuple(sorted(kw)))
        if key not in self._runs:
            p = self.prog(prog)
            e = Engine(p, self.cut(cut, p))
            outs = e.run(fid, **kw)
            self._runs[key] = (e, outs)
            for k, v in e.stats.items():
                self.stats[k] = self.stats.get(k, 0) + v
            self.functions.add(fid)
            self.functions |= e.functions
        return self._runs[key]

    _cuts = {}

    def cut(self, name, p):
        if name is None:
            return None
        from .cuts import solver_cut, runner_cut, lex_cut
        if name == 'runner':
            return runner_cut(p)
        if name == 'lex':
            return lex_cut(p)
        if name == 'solver':
            return solver_cut(p)
        raise ValueError(name)

    # ---- obligations
    def rule(self, rid, text):
        self.rule_text[rid] = text

    def ob(self, rule, inst, ok, detail='', site=''):
        """one obligation; the same instance seen again must hold again (rules of other properties are left to their own checks)"""
        pre = rule.split('.')[0]
        if pre not in (self.prop, 'analysis') and rule not in self.also:
            return ok
        k = (rule, inst)
        o = self.obs.get(k)
        if o is None:
            self.obs[k] = [bool(ok), '' if ok else detail, site, 1]
        else:
            o[3] += 1
            if o[0] and not ok:
                o[0], o[1], o[2] = False, detail, site
        return ok

    def floor(self, rule, n, what=''):
        """at least n distinct instances of a rule, or the rule is vacuous"""
        c = sum(1 for r, i in self.obs if r == rule)
        self.ob(rule, 'instances>=%d' % n, c >= n, 'only %d instance(s) of this rule were found (expected at least %d) %s' % (c, n, what))

    def failures(self):
        return [(r, i, o[1], o[2]) for (r, i), o in sorted(self.obs.items()) if not o[0]]
