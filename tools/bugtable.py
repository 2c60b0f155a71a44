"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    'c20-nextname': 'missed at first; C20/C01 `attributes` tests added (also caught by C01)',
    'c22-order': 'harness error at first; C22 finds the parts without assertions',
    'c25-nonepublic': 'missed at first; more look-alike permissions',
    'c21-revkey': 'missed at first; counting over every operation with large indices',
    'c21-modname': 'missed at first; groups of related hostile calls',
    'c21-nomodule': 'missed at first; classes whose module alone is unreadable',
    'c02-lying': 'missed at first; C02 `disguised` added',
    'c02-pow3': 'missed at first; C02 `disguised` added',
    'c02-module': 'missed at first; C02 `disguised` added',
}
MISSED.update(json.load(open(os.path.join(HERE, 'tools', 'notes.json'))))
head = open(os.path.join(HERE, 'DESIGN.md')).read().split('\n| bug |')[0].rstrip()
rows = ['| bug | caught by | needs | note |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'],
                                           MISSED.get(i, '')))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(head + '\n\n' + '\n'.join(rows) + '\n')
