"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set('variant-equal-empty-first action-call-before-assign tap-forwards catch-decayed-handler hold-copies-each-time echo-key-counter-narrow ctx-peer-not-told range-end-of-begin'.split())
rows = []
metas = [(json.load(open(os.path.join(V, 'seeded', i, 'meta.json'))), i) for i in os.listdir(os.path.join(V, 'seeded'))]
for m, i in sorted(metas, key=lambda x: (x[0]['property'], x[1])):
    rows.append('| %s%s | %s | %s |' % (i, '*' if i in MISSED else '', m['property'], m['needs']))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
t = '<!-- seedtable -->\n| planted bug | caught by | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seedtable -->'
s = re.sub(r'<!-- seedtable -->.*<!-- /seedtable -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
print(len(rows), 'planted bugs')
