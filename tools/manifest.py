#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of run.py and the list of properties."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NOTES = json.load(open(V + '/tools/notes.json'))
reg = set(re.findall(r"^    '(C\d\d)':", open(V + '/run.py').read(), re.M))
checks, na = [], []
for i in ids:
    if i in reg:
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='python3 run.py ' + i,
                           technique='TLA+ specification (%s) checked with TLC; traces of the real code, driven by scripts from the TLC state graph, validated by TLC against it' % n['spec'],
                           level='model_checking', level_note=n['note']))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get('na', 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na], 'not')
