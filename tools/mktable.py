"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (a documentation helper; no check uses it)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | needs | caught by the check of |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), m.get('caught_by', m['property'])))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n%s\n<!-- /seeded -->' % '\n'.join(rows), s, flags=re.S)
open(p, 'w').write(s)
