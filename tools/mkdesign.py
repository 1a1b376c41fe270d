"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/missed.json"""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(os.path.join(here, 'tools', 'missed.json')))
rows = []
d = os.path.join(here, 'seeded')
for x in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, x, 'meta.json')))
    rows.append((m['property'], x, m['needs'].replace('|', '/'), missed.get(x, '')))
rows.sort()
out = ['| check | planted change | what it needs | missed at first; what was strengthened |', '|---|---|---|---|']
out += ['| %s | %s | %s | %s |' % r for r in rows]
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- planted -->\n', '<!-- /planted -->\n'
s = s[:s.index(a) + len(a)] + '\n'.join(out) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
print(len(rows), 'changes;', sum(1 for r in rows if r[3]), 'missed at first')
