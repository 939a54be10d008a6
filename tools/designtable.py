"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(root + '/seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'].replace('|', '\\|')))
rows.sort()
table = '\n'.join('| %s | %s | %s |' % r for r in rows)
p = root + '/DESIGN.md'
head = '| property | bug (caught by that property\'s check) | needs |\n|---|---|---|\n'
s = open(p).read()
i = s.index(head) + len(head)
j = s.index('\n\n', i)
open(p, 'w').write(s[:i] + table + s[j:])
