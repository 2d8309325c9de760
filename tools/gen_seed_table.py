#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
MISSED = {
    'P03-first-wins': 'first missed: scope names, repeated local names in generated documents',
    'P04-style-marker': 'first missed: marker in the cascade scope, values that fit their property',
    'T04-link': 'first missed: link rows in the tables',
    'P01-blank-first': 'first missed: scope space for P01',
    'P03-space-attr': 'first missed (under W02): mode space for P03',
    'W01-sort-name': 'first missed: every attribute at once',
}
MISSED.update(json.load(open(os.path.join(V, 'tools', 'missed.json'))) if os.path.exists(os.path.join(V, 'tools', 'missed.json')) else {})
rows = ['| bug | check | what it breaks | needs | note |', '|---|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    c = lambda x: str(x).replace('|', '/').replace('\n', ' ')
    rows.append('| %s | %s quick | %s | %s | %s |' % (s, m['property'], c(m['what_it_breaks']), c(m['needs']), MISSED.get(s, '')))
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
body = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
t = t.replace('SEEDTABLE', body) if 'SEEDTABLE' in t else re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda m: body, t, flags=re.S)
open(p, 'w').write(t)
print(len(rows) - 2)
