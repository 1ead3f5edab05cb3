"""fill the planted-bug table of DESIGN.md from seeded/*/meta.json"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append('| %s: %s | %s |' % (f.split('/')[-2], m['what_it_breaks'], m['property']))
p = V + '/DESIGN.md'; s = open(p).read()
if '@@SEEDS@@' in s: s = s.replace('@@SEEDS@@', '\n'.join(rows))
else: s = re.sub(r'(\| bug \| caught by \|\n\|---\|---\|\n)(\|.*\n)*', lambda m: m.group(1) + '\n'.join(rows) + '\n', s)
open(p, 'w').write(s)
