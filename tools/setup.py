#!/usr/bin/env python3
"""Pre-builds every harness so that the compiler cache is warm. The checks do not depend on it."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import vf
vf.build(sorted(f[:-4] for f in os.listdir(V + '/harness') if f.endswith('.cpp')))
