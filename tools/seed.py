#!/usr/bin/env python3
'''
Development tool for the planted bugs (no check uses it).

  seed.py plant FILE.py ...   FILE defines SEEDS, a list of dicts with id,
                              property, edits [(file, old, new)], needs,
                              breaks, demo; writes /verif/seeded/<id>/
  seed.py verify [ID ...]     applies each patch to a scratch copy of /repo,
                              runs the stable tests there, the demo with and
                              without the patch
  seed.py catch [--prop P] [ID ...]   runs the check of the seed's property
                              (or P) against the patched scratch copy
'''
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0 if the property holds on what the demonstration tries, 1 otherwise
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 250 \\
    /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='seedtree-')
    tree = os.path.join(d, 'repo')
    run(['cp', '-a', '/repo', tree])
    return d, tree


def plant(files):
    for f in files:
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        for s in ns['SEEDS']:
            d, tree = copy()
            for path, old, new in s['edits']:
                p = os.path.join(tree, 'stoqcompiler', path)
                text = open(p).read()
                if text.count(old) != 1:
                    print(s['id'], path, 'old text found', text.count(old),
                          'times')
                    break
                open(p, 'w').write(text.replace(old, new))
            else:
                diff = run(['git', '-C', tree, 'diff']).stdout
                out = os.path.join(SEEDED, s['id'])
                os.makedirs(out, exist_ok=True)
                open(os.path.join(out, 'patch.diff'), 'w').write(diff)
                open(os.path.join(out, 'demo.py'), 'w').write(
                    s['demo'].strip() + '\n')
                sh = os.path.join(out, 'demo.sh')
                open(sh, 'w').write(DEMO)
                os.chmod(sh, 0o755)
                json.dump({'property': s['property'], 'needs': s['needs'],
                           'what_it_breaks': s['breaks']},
                          open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            shutil.rmtree(d)


def verify(i):
    d, tree = copy()
    try:
        src = os.path.join(SEEDED, i)
        away = os.path.join(d, 'elsewhere')
        shutil.copytree(src, away, ignore=shutil.ignore_patterns(
            '*.diff', '*.patch', 'meta.json'))
        before = run(['bash', os.path.join(away, 'demo.sh')], cwd=tree)
        a = run(['git', '-C', tree, 'apply', os.path.join(src, 'patch.diff')])
        if a.returncode:
            return i, 'patch does not apply: ' + a.stdout
        tests = run([PY, '-m', 'pytest', '-q', 'tests', '-p', 'seed_rng', '-p',
                     'no:cacheprovider', '--timeout=300'], cwd=tree, env=dict(
                         os.environ, PYTHONDONTWRITEBYTECODE='1',
                         PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1',
                         OMP_NUM_THREADS='1',
                         PYTHONPATH='/opt/testsupport:' + tree))
        t0 = time.time()
        after = run(['bash', os.path.join(away, 'demo.sh')], cwd=tree)
        bad = []
        if before.returncode:
            bad.append('demo fails unpatched: ' + before.stdout[-600:])
        if tests.returncode:
            bad.append('tests fail: ' + tests.stdout[-900:])
        if not after.returncode:
            bad.append('demo passes patched')
        return i, '; '.join(bad) or 'ok (%.0f s)' % (time.time() - t0)
    finally:
        shutil.rmtree(d)


def catch(i, prop=None):
    d, tree = copy()
    try:
        src = os.path.join(SEEDED, i)
        run(['git', '-C', tree, 'apply', os.path.join(src, 'patch.diff')])
        p = prop or json.load(open(os.path.join(src, 'meta.json')))['property']
        t0 = time.time()
        r = run([PY, os.path.join(VERIF, 'check.py'), p],
                env=dict(os.environ, STOQ_REPO=tree))
        lines = [x for x in r.stdout.splitlines() if 'VIOLATION' in x]
        ok = r.returncode == 1 and any(
            ('property=' + p) in x for x in lines)
        return i, p, ok, r.returncode, time.time() - t0, r.stdout
    finally:
        shutil.rmtree(d)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'plant':
        return plant(args)
    prop = None
    if args[:1] == ['--prop']:
        prop, args = args[1], args[2:]
    ids = args or sorted(os.listdir(SEEDED))
    if cmd == 'verify':
        with concurrent.futures.ThreadPoolExecutor(6) as pool:
            for i, what in pool.map(verify, ids):
                print(i, what, flush=True)
    else:
        for i in ids:
            i, p, ok, rc, wall, out = catch(i, prop)
            print('%-6s %s %s rc=%d %.0f s' % (
                'CAUGHT' if ok else 'MISSED', i, p, rc, wall), flush=True)
            for x in out.splitlines()[-4:]:
                print('      ', x[:220], flush=True)


main()
