"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for line in open(os.path.join(V, 'tools', 'caught.txt')):
    if line.strip() and not line.startswith('#'):
        k, _, v = line.strip().partition(' ')
        caught[k] = v
rows = ['| planted bug | property | caught by | what it breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], caught.get(i, '?'), ' '.join(m['what_it_breaks'].split()).replace('|', '/')))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
head = s[:s.index('## 5. Planted bugs')]
rest = s[s.index('## 5. Planted bugs'):]
intro = rest.split('\n| ')[0].rstrip()
open(p, 'w').write(head + intro + '\n\n' + '\n'.join(rows) + '\n')
