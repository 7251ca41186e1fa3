"""Rewrites the sensitivity table of DESIGN.md from seeded/*/meta.json (python3 tools/senstable.py)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeded -->', '| planted bug | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/').rstrip('.'), m.get('caught', m['property'])))
rows.append('<!-- end seeded -->')
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
s = s.replace('SENSTABLE', '<!-- seeded --><!-- end seeded -->')
s = re.sub(r'<!-- seeded -->.*?<!-- end seeded -->', lambda m: '\n'.join(rows), s, flags=re.S)
open(p, 'w').write(s)
