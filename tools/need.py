#!/usr/bin/env python3
"""Development tool: records which library sources each harness links (lib/need.json)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import vf
f = V + '/lib/need.json'
hs = sorted(x[:-4] for x in os.listdir(V + '/harness') if x.endswith('.cpp'))
if os.path.exists(f):
    os.remove(f)
vf.build(hs)
need = {}
for h in hs:
    exe, p = vf._link(h, vf._sources(), ['-Wl,-Map=' + vf.BUILD + '/map'])
    need[h] = sorted(set(re.findall(r'libsparta.a\((\w+\.cpp)\.o\)', open(vf.BUILD + '/map').read())))
    print(h, len(need[h]))
json.dump(need, open(f, 'w'), indent=1)
