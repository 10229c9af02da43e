#!/usr/bin/env python3
'''Rewrites the table of seeded changes at the end of DESIGN.md.'''
import json
import os
import glob

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Seeded changes'
by = {}
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    by.setdefault(json.load(open(f))['property'], []).append(
        os.path.basename(os.path.dirname(f)))
text = open(os.path.join(V, 'DESIGN.md')).read().split(MARK)[0]
n = sum(len(v) for v in by.values())
text += MARK + '''

%d changes were planted in batches (`tools/seeds/`), each written from the
text of a property, confirmed to pass the stable tests and to fail its own
demonstration. Changes that were missed at first led to stronger generators
or to new parts of the specification; at the time of writing every one is
caught by the quick check of the property it was written for (many also by
others). By property:

| property | changes caught by its check |
|---|---|
''' % n
for p in sorted(by):
    text += '| %s | %s |\n' % (p, ', '.join(by[p]))
open(os.path.join(V, 'DESIGN.md'), 'w').write(text)
