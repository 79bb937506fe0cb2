"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
t = {}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); t.setdefault(m['property'], []).append('%s (%s)' % (os.path.basename(os.path.dirname(f)), m['needs'].replace('|', '/').rstrip('.')))
rows = ['| %s | %s |' % (k, '; '.join(v)) for k, v in sorted(t.items())]
s = open('/verif/DESIGN.md').read()
s = re.sub(r'(\| property \| planted bugs caught \|\n\|---\|---\|\n)(\|.*\n)+', lambda m: m.group(1) + '\n'.join(rows) + '\n', s)
open('/verif/DESIGN.md', 'w').write(s)
