"""tools/table.py: the table of planted bugs in DESIGN.md; MISSED: names given as arguments"""
import json, os, re, sys
s = open('DESIGN.md').read()
rows = ['| bug | property | needs | check |', '|---|---|---|---|']
for n in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % n))
    rows.append('| %s | %s | %s; %s | %s |' % (n, m['property'], m['needs'], m['what_it_breaks'],
                'missed' if n in sys.argv[1:] else 'caught by %s quick' % m['property']))
a, b = s.index('<!-- table -->'), s.index('<!-- end -->')
open('DESIGN.md', 'w').write(s[:a] + '<!-- table -->\n' + '\n'.join(rows) + '\n' + s[b:])
