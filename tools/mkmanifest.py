"""Writes /verif/MANIFEST.json: claims every property that has a check module."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NOTE = ('Bounded: every case of the stated finite spaces is executed on the real code and judged by an independent '
        'oracle; nothing is sampled. Trusted: numpy/scipy/pandas/netCDF4, the oracle, and that defects show within the bounds.')
TECH = {}
NOTES = {}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    f = os.path.join(V, 'checks', i + '.py')
    if os.path.exists(f):
        lev = [x for x in open(f) if x.startswith('LEVEL')][0].split("'")[1]
        checks.append(dict(property=i, quick_cmd='bash check.sh %s --tier quick' % i,
                           thorough_cmd='bash check.sh %s --tier thorough' % i,
                           technique=TECH[i], level=lev, level_note=NOTES.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason=REASONS.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='bash check.sh --selftest', checks=checks, not_applicable=na,
         hooks=dict(guard='none', enable='the checks need no hooks: they call the public functions of the working tree',
                    source_commits=[]))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
