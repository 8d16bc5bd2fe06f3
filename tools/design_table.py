"""rewrites the table of seeded bugs in DESIGN.md"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = ['| bug | check | needs |', '|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    r.append('| %s | %s | %s |' % (i, m['property'], m['needs']))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'\| bug \| check \| needs \|\n(\|.*\n)*', '\n'.join(r) + '\n', s, count=1)
open(p, 'w').write(s)
