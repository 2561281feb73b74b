#!/usr/bin/env python3
"""Rewrites baseline_fields.json: the data members the references speak about. Members that later appear in a class are private
bookkeeping of its implementation and not compared themselves (their effect on everything else is)."""
import sys, os, json, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import db as DBM
out = {}
for h in sorted(glob.glob(os.path.join(DBM.VERIF, 'harness', 'h_*.cpp'))):
    D = DBM.load(os.path.basename(h)[2:-4])
    for k, r in D.records.items():
        if r['qn'].startswith('ct::'):
            out.setdefault(r['qn'], set()).update(f[0] for f in r['fields'])
json.dump({k: sorted(v) for k, v in sorted(out.items())}, open(os.path.join(DBM.VERIF, 'checks', 'baseline_fields.json'), 'w'), indent=0)
