"""gen_design.py: rewrite the table of planted bugs at the end of DESIGN.md."""
import json
import os

V = '/verif/'
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for i in sorted(os.listdir(V + 'seeded')):
    m = json.load(open(V + 'seeded/%s/meta.json' % i))
    rows.append('| %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/')))
t = open(V + 'DESIGN.md').read()
mark = '@@SEEDS@@' if '@@SEEDS@@' in t else '| planted bug |'
open(V + 'DESIGN.md', 'w').write(t[:t.index(mark)] + '\n'.join(rows) + '\n')
