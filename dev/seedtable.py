"""seedtable.py: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (development aid)"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append('| %s: %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['property'], m['property']))
p = V + '/DESIGN.md'; s = open(p).read()
h = '| planted | property | reported by |\n|---|---|---|\n'
a = s.index(h) + len(h); b = s.index('\n\n', a)
s = s[:a] + '\n'.join(rows) + s[b:]
open(p, 'w').write(s)
