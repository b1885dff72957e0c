#!/usr/bin/env python3
"""Writes harness/vp_nt.hpp: the parsers defined by recursion, as classes,
from NTDef of spec/Metaparse.tla."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import emit
from core import Tlc

with tempfile.TemporaryDirectory() as d:
    out = d + '/nt.json'
    Tlc()('NtGen', 'NtGen.cfg', {'VP_OUT': out}, d, workers=1)
    defs = [json.loads(l)['p'] for l in open(out)]
with open(V + '/harness/vp_nt.hpp', 'w') as f:
    f.write('// Written by tools/mknt.py\n')
    for n in range(len(defs)):
        f.write('struct nt%d;\n' % (n + 1))
    for n, p in enumerate(defs):
        f.write('struct nt%d :\n  %s\n{};\n' % (n + 1, emit.Emitter(n).term(p)))
