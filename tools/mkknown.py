#!/usr/bin/env python3
"""Writes the 'fixed' part of /verif/known_findings.json (findings are edited there by hand)."""
import json, os, subprocess
MAP = '''3362e2a C08
646f6c4 C12
111274d C08
66cc550 C10
76dfd97 C23
c911a8a C23
7a28a4f C23
f8bb314 C22
86c4193 C24
686323e C01
6079f85 C01
58727e4 C20
45c9979 C21
6f2185d C18
f805549 C28
92f9f69 C02
980eafe C16
c685549 C32
8f34eb0 C15
e425834 C26
3bf6613 C25
a87e967 C27
e5b4fe9 C31
6984c8d C29
0d14dba C04
ec4af7b C05
c2979b4 C05
65ade44 C06
a41ea32 C06
da7ab8c C06
d3239fb C06
2255186 C06
443fd58 C06
b195544 C17
499d6f4 C11
869ac09 C23
41e5b00 C24
0241b39 C24
f3fb275 C24
9cc949e C35
2efa7ff C04
3097ece C05
8711d98 C15
f63b7a9 C18
eb1fbb7 C20
2279ddf C18
4ca6136 C31
6912ea8 C35
0828f6d C07
f9705a4 C07
bf57c51 C23
077a1c0 C22
c1301df C24
fa4562b C40
aab1f81 C40
680f1ea C18
6983229 C18
e4367f8 C18
f017d28 C16
99eff97 C12
dc9b7bf C35
3a047a2 C09
fcc4228 C36
a09f849 C35
4310788 C34'''
MAP = dict(l.split() for l in MAP.splitlines())
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(here, 'known_findings.json')
d = json.load(open(f))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '5f945fc..HEAD'], capture_output=True, text=True).stdout
d['fixed'] = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    d['fixed'].append('fixed: property=%s %s %s' % (MAP[h], h, s[5:]))
json.dump(d, open(f, 'w'), indent=1)
open(f, 'a').write('\n')
print(len(d['fixed']))
