"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s |' % (d, m['needs'], m['property']))
p = V + '/DESIGN.md'
s = open(p).read()
head = '| change | needs | caught by |\n|---|---|---|\n'
i = s.index(head) + len(head)
j = re.compile(r'(?:\|.*\n)*').match(s, i).end()
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
