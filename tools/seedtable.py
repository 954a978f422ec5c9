"""Rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    rows.append((m['property'], d, m['what_it_breaks'], m['needs']))
t = ['| check | planted change | what it breaks | needs |', '|---|---|---|---|'] + ['| %s | %s | %s | %s |' % r for r in sorted(rows)]
s = open(H + '/DESIGN.md').read()
i = s.index('<!-- seeded -->')
open(H + '/DESIGN.md', 'w').write(s[:i] + '<!-- seeded -->\n' + '\n'.join(t) + '\n')
