#!/usr/bin/env python3
"""table.py [LOG]: writes the table of planted bugs at the end of DESIGN.md, from seeded/*/meta.json and trybugs.sh's output."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
parts = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        m = re.match(r'(\S+) caught by (C\d\d): C\d\d-(\S+)', l)
        if m:
            parts[m[1]] = m[3]
rows = ['### Planted bugs and what catches them', '', 'Every one is caught by the quick check of its property, in the part named, where one is (the first that reported it).', '', '| bug | needs | part |', '|---|---|---|']
for d in sorted(glob.glob(here + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    n = os.path.basename(d)
    rows.append('| %s | %s | %s |' % (n, m['needs'].replace('|', '\\|'), (m['property'] + ' ' + parts.get(n, '')).strip()))
p = here + '/DESIGN.md'
s = re.sub(r'(@TABLE@|### Planted bugs and what catches them)[\s\S]*', '', open(p).read()).rstrip('\n')
open(p, 'w').write(s + '\n\n' + '\n'.join(rows) + '\n')
