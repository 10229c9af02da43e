'''Nothing is compiled ahead of time: this only confirms that TLC, the library
under test and every specification module are usable.'''
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, 'harness'))
import core, lib  # noqa
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
d = tempfile.mkdtemp(prefix='stoqverif-')
try:
    for f in os.listdir(core.SPEC):
        shutil.copy(os.path.join(core.SPEC, f), d)
    bad = 0
    for f in sorted(os.listdir(d)):
        if f.endswith('.tla'):
            r = subprocess.run(['java', '-cp', core.JARS, 'tla2sany.SANY', f],
                               cwd=d, capture_output=True, text=True)
            if r.returncode or 'error' in r.stdout.lower().replace('errors: 0', ''):
                print(f, r.stdout[-500:])
                bad += r.returncode != 0
    print('specification modules parsed, %d bad' % bad)
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if bad else 0)
