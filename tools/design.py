"""Rewrites the table of planted bugs in DESIGN.md (results of the last runs: tools/caught.json)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + '/tools/caught.json'))
rows = ['| planted bug | needs | breaks | check |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s | %s %s |' % (i, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), m['property'], res.get(i, 'not run')))
p = V + '/DESIGN.md'
s = open(p, encoding='utf-8').read()
s = re.sub(r'(<!-- planted -->\n).*?(<!-- /planted -->)', lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(2), s, flags=re.S)
open(p, 'w', encoding='utf-8').write(s)
