"""fills the table of planted bugs of DESIGN.md: python3 tools/mkbugs.py LOG (lines 'id | Cxx:CAUGHT  oracle [..'): what the own check says"""
import glob
import json
import os
import re
import sys

log = {}
for f in sys.argv[1:]:
    for line in open(f):
        k, _, v = line.partition(' | ')
        log[k.strip()] = v.strip()
s = open('DESIGN.md').read().split('## Planted bugs')[0]
out = ['## Planted bugs', '', 'Each lies in `seeded/<id>`; quick check of the own property with seed 1.', '', '| bug | needs | caught by (oracle) |', '|---|---|---|']
for d in sorted(glob.glob('seeded/*')):
    k = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    v = log.get(k, '')
    g = re.match(r'(C\d\d):CAUGHT\s*(.*)', v)
    t = '%s (%s)' % (g.group(1), re.split(r' \[| \{', g.group(2))[0].strip()[:70]) if g else 'missed'
    out.append('| %s | %s | %s |' % (k, m['needs'].replace('|', '/').replace('\n', ' '), t.replace('|', '/')))
open('DESIGN.md', 'w').write(s + '\n'.join(out) + '\n')
