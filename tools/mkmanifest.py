#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'TLA+ specification checked with TLC; recorded executions of the real code validated against it'
CLAIMED = json.load(open(V + '/tools/claimed.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd='bin/check ' + i, thorough_cmd='bin/check ' + i,
                           evidence_file='evidence/%s.json' % i, technique=c.get('technique', TECH),
                           level='model_checking', level_note=c['note']))
    else:
        na.append(dict(property=i, reason='no check has been built for it yet'))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='All checks run the unmodified library (no hooks): drivers in drivers/ are linked with the sources of '
               '/repo, their recorded histories are validated by TLC against the modules in spec/.')
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed;', len(na), 'not')
