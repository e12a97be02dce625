"""Fills the "fixed" list of known_findings.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(l.split() for l in '''4b1ace1 C21
1c6b848 C22
e2dfc02 C23
7d57c46 C23
3b593da C23
e10ee5c C23
7507ee6 C23
4379ffd C26
42c18cc C26
51fff6d C26
6e8e157 C21
12a34a8 C28
4977f4c C28
9022641 C01
7f28e8e C01
2db8adf C05
0b4cfa6 C05
8cd4d72 C07
6b23eef C15
22c7201 C15
88b88d9 C13
f16965e C17
6d77368 C16
d2b6766 C27
a1c5aeb C11
cf32019 C16
1cf2117 C14
6a7f70a C13
cc86f88 C16
d4199e0 C09
97516c8 C18
76eca9d C18
745f580 C18
d5f833f C20
dae696f C29
1386bdd C29
6110c6b C01
5230c3a C04'''.split('\n'))
EXTRA = os.path.join(V, 'tools', 'fixed_extra.txt')
if os.path.exists(EXTRA):
    PROP.update(dict(l.split() for l in open(EXTRA) if l.strip()))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
fixed = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        fixed.append('fixed: property=%s %s %s' % (PROP[h[:7]], h, s[5:]))
f = os.path.join(V, 'known_findings.json')
d = json.load(open(f))
d['fixed'] = fixed
json.dump(d, open(f, 'w'), indent=1)
open(f, 'a').write('\n')
print(len(fixed))
