"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | needs | what breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['what_it_breaks']))
t = open(here + '/DESIGN.md').read()
a, rest = t.split('<!-- table -->', 1)
b = rest.split('\nBesides these', 1)[1]
open(here + '/DESIGN.md', 'w').write(a + '<!-- table -->\n' + '\n'.join(rows) + '\n\nBesides these' + b)
