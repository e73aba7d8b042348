#!/usr/bin/env python3
"""note.py Cxx Spec.tla "note": sets the manifest note of a property and regenerates the manifest."""
import json, os, subprocess, sys
d = os.path.dirname(os.path.abspath(__file__))
n = json.load(open(d + '/notes.json'))
n[sys.argv[1]] = {'spec': sys.argv[2], 'note': sys.argv[3]}
json.dump(n, open(d + '/notes.json', 'w'), indent=1)
for t in ('props.py', 'manifest.py', 'need.py'):
    subprocess.run([sys.executable, d + '/' + t], check=True, stdout=subprocess.DEVNULL)
