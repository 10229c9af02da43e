'''
Common machinery of the checks: running TLC, scratch folders, evidence,
violations.  Everything runs from the committed files of /verif and the
current tree of /repo; scratch folders live under /tmp and are removed.
'''
import atexit
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('STOQ_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
EVIDENCE = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known_findings.txt')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
THOROUGH = TIER == 'thorough'
CORES = min(8, os.cpu_count() or 1)

_scratch = None
_owner = os.getpid()


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='stoqverif-')

        def clean(path=_scratch, pid=os.getpid()):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
    return _scratch


class MachineryError(Exception):
    '''The check itself failed: neither "holds" nor "violated".'''


class Tlc:
    '''The outcome of one TLC run.'''
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.records = []
        self.plain = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                self.records.append(json.loads(json.loads(line)[2:]))
            else:
                self.plain.append(line)
        text = '\n'.join(self.plain)
        self.text = text
        self.generated = self.distinct = 0
        for line in self.plain:
            if ' states generated' in line and 'distinct' in line \
                    and line[:1].isdigit():
                w = line.replace(',', '').split()
                self.generated = int(w[0])
                self.distinct = int(w[w.index('distinct') - 1])
            elif line.startswith('Progress: ') and 'states checked' in line:
                self.generated = int(line.split()[1].replace(',', ''))
            elif 'The number of states generated:' in line:
                self.generated = int(line.split(':')[1].strip().replace(',', ''))
        self.violated = [ln for ln in self.plain
                         if 'is violated' in ln or 'was violated' in ln
                         or 'were violated' in ln]
        self.ok = (rc == 0 and not self.violated
                   and 'Error:' not in text)


    def brief(self):
        lines = [ln for ln in self.plain if not ln[:1].isdigit()]
        first = next((i for i, ln in enumerate(lines) if 'Error' in ln), 0)
        return '\n'.join(lines[first:first + 25])[:3000]


_count = 0


def tlc_start(name, body, cfg, data=None, workers=1, simulate=None,
              depth=None, seed=None, heap='2g', extra=()):
    '''Writes module `name` with `body` (text of the whole module), its
    configuration and data files, and starts TLC on it.'''
    global _count
    _count += 1
    d = os.path.join(scratch(), 'tlc%d-%d' % (os.getpid(), _count))
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, name + '.tla'), 'w') as f:
        f.write(body)
    with open(os.path.join(d, name + '.cfg'), 'w') as f:
        f.write(cfg)
    for fn, value in (data or {}).items():
        with open(os.path.join(d, fn), 'w') as f:
            json.dump(value, f)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC',
           '-XX:ParallelGCThreads=%d' % max(1, min(4, workers)),
           '-XX:CICompilerCount=2', '-XX:TieredStopAtLevel=4',
           '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
           '-config', name + '.cfg']
    if simulate is not None:
        cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(seed)]
        if depth:
            cmd += ['-depth', str(depth)]
    cmd += list(extra) + [name + '.tla']
    outf = open(os.path.join(d, 'out.txt'), 'w')
    p = subprocess.Popen(cmd, cwd=d, stdout=outf, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL)
    return p, d, outf, time.time(), name


def tlc_wait(handle, timeout=600, must=True):
    p, d, outf, t0, name = handle
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        outf.close()
        raise MachineryError('TLC on %s did not end in %ss' % (name, timeout))
    outf.close()
    with open(os.path.join(d, 'out.txt')) as f:
        out = f.read()
    res = Tlc(out, rc, time.time() - t0)
    keep = os.environ.get('VERIF_KEEP')
    if keep:
        shutil.copytree(d, os.path.join(keep, os.path.basename(d)),
                        dirs_exist_ok=True)
    shutil.rmtree(d, ignore_errors=True)
    if must and not res.ok:
        raise MachineryError('TLC on %s failed (rc %s):\n%s' % (
            name, rc, res.brief()))
    return res


def tlc(*a, **k):
    timeout = k.pop('timeout', 600)
    must = k.pop('must', True)
    return tlc_wait(tlc_start(*a, **k), timeout, must)


def module(name, extends, text=''):
    return '---- MODULE %s ----\nEXTENDS %s\n%s\n====\n' % (
        name, extends, text)


def tla(value):
    '''A Python value as a TLA+ expression.'''
    if isinstance(value, bool):
        return 'TRUE' if value else 'FALSE'
    if isinstance(value, int):
        return str(value)
    if isinstance(value, str):
        return '"%s"' % value
    if isinstance(value, (list, tuple)):
        return '<<' + ', '.join(tla(v) for v in value) + '>>'
    if isinstance(value, (set, frozenset)):
        return '{' + ', '.join(tla(v) for v in sorted(value)) + '}'
    if isinstance(value, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla(v))
                               for k, v in value.items()) + ']'
    raise TypeError(type(value))


# ---------------------------------------------------------------------------

class Timeout(Exception):
    pass


class limit:
    '''Raises Timeout in the block after so many seconds of processor time
    (a busy machine is no fault of the code under test), or much more of
    wall time.'''
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def ring(*_):
            raise Timeout('no answer within %s s' % self.seconds)
        self.old = [signal.signal(s, ring)
                    for s in (signal.SIGALRM, signal.SIGPROF)]
        signal.setitimer(signal.ITIMER_PROF, self.seconds)
        signal.alarm(min(600, 10 * self.seconds))

    def __exit__(self, *_):
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, self.old[0])
        signal.signal(signal.SIGPROF, self.old[1])


def brief_tb(exc):
    return ''.join(traceback.format_exception_only(type(exc), exc)).strip() \
        + ' @ ' + ' <- '.join(
            '%s:%d' % (os.path.basename(f.filename), f.lineno)
            for f in reversed(traceback.extract_tb(exc.__traceback__)[-4:]))


class Wrong(Exception):
    '''The harness saw the code under test do something impossible.'''


def caught(exc):
    '''An exception as a finding about the code under test; if the code
    under test had no part in it, it is an error of the harness.'''
    if isinstance(exc, (Wrong, Timeout)):
        return {'error': str(exc)}
    frames = traceback.extract_tb(exc.__traceback__)
    if not any(f.filename.startswith(REPO + '/') for f in frames) and (
            '"%s/' % REPO not in str(exc.__cause__)):
        raise MachineryError('harness: ' + brief_tb(exc))
    return {'error': brief_tb(exc)}


class Check:
    '''One run of the check of one property.'''
    def __init__(self, prop, level, technique):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.violations = []
        self.coverage = {}
        self.samples = []
        self.counts = {}
        self.notes = []
        self.technique = technique

    def add(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        known = load_findings().get(self.prop, [])
        fresh, seen = [], []
        for what, replay in self.violations:
            hit = [k for k in known if k in what]
            (seen if hit else fresh).append((what, replay))
        for what, _ in seen:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        cov = dict(self.counts)
        cov.update(self.coverage)
        cov['samples'] = self.samples
        cov['technique'] = self.technique
        cov['violations'] = len(fresh)
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.prop, 'tier': TIER if TIER in
              ('quick', 'thorough') else 'quick', 'seed': SEED,
              'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2)}
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        path = os.path.join(EVIDENCE, self.prop + '.replay.json')
        if fresh:
            with open(path, 'w') as f:
                json.dump([{'what': w, 'replay': r} for w, r in fresh[:20]],
                          f, indent=1, default=str, ensure_ascii=False)
            for w, _ in fresh[:5]:
                print('  ' + w[:600])
            if len(fresh) > 5:
                print('  ... and %d more' % (len(fresh) - 5))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        if os.path.exists(path):
            os.remove(path)
        print('OK property=%s %s wall=%.1fs' % (
            self.prop, {k: v for k, v in cov.items()
                        if isinstance(v, int)}, time.time() - self.t0))
        return 0


def load_findings():
    res = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith('finding: property='):
                rest = line[len('finding: property='):].rstrip('\n')
                p, _, text = rest.partition(' ')
                res.setdefault(p, []).append(text)
    return res


def log(*a):
    if os.environ.get('VERIF_VERBOSE'):
        print(*a, file=sys.stderr, flush=True)
