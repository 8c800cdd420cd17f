#!/usr/bin/env python3
"""addprop.py: (re)writes the entries of properties.jsonl that are kept in tools/props_sun.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import props_sun
P = V + '/properties.jsonl'
ps = [json.loads(l) for l in open(P)]
ids = {p['id']: i for i, p in enumerate(ps)}
for n in props_sun.PROPS:
    if n['id'] in ids: ps[ids[n['id']]] = n
    else: ps.append(n)
open(P, 'w').write(''.join(json.dumps(p) + '\n' for p in ps))
