'''Writes /verif/MANIFEST.json from harness/registry.py and properties.jsonl.'''
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p['id'])
    if c is None:
        na.append({'property': p['id'], 'reason': 'not built yet'})
        continue
    cmd = '/opt/venv/bin/python /verif/check.py ' + p['id']
    checks.append({'property': p['id'], 'quick_cmd': cmd,
                   'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': c['technique'], 'level': c['level'],
                   'level_note': c['note']})
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python /verif/tools/setup.py',
     'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, harness in harness/. No hooks in '
              '/repo: everything is observed through the public API. Defects '
              'found and repaired are in known_findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
