"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
p = '/verif/DESIGN.md'
s = open(p).read()
i = s.index('| planted bug | caught by |') if '| planted bug | caught by |' in s else s.index('@@TABLE@@')
missed = json.load(open('/verif/tools/missed.json'))
rows = []
for d in os.listdir('/verif/seeded'):
    m = json.load(open('/verif/seeded/%s/meta.json' % d))
    rows.append((m['property'], d, m['needs'].replace('|', '/')))
t = '| planted bug | caught by | needs |\n|---|---|---|\n'
for pr, d, n in sorted(rows):
    t += '| %s | %s | %s |\n' % (d, pr, n)
t += '\nMissed at first:\n\n'
for d, w in sorted(missed.items()):
    t += '* %s: %s\n' % (d, w)
open(p, 'w').write(s[:i] + t)
