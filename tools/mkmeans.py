#!/usr/bin/env python3
"""Ceilings of averages: reads evidence/C21..C23.json of a run on a tree taken as right, writes means.json.
   Margins come from comparing builds with other floating-point code (-O0, -O3 -march=native)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for p in ('C21', 'C22', 'C23', 'C34'):
    st = json.load(open('%s/evidence/%s.json' % (V, p)))['coverage']['observed']
    for k in sorted(st):
        if not (k.startswith('b_') and k.endswith('_sum')):
            continue
        n = st[k[:-4] + '_n']
        if p == 'C34' and 'cost' not in k:
            continue
        if n < 20:
            continue
        if '_all_' in k:                        # standard problems together, and one by one
            m = 4 if 'cost' in k else 12
        elif k[:4] in ('b_21', 'b_22', 'b_23'):
            m = 12 if 'cost' in k else 80
        elif k.startswith('b_cost'):
            m = 6 if n >= 900 else 12 if n >= 100 else 40
        else:
            m = 25 if n >= 1300 else 120 if n >= 150 else 400
        out.setdefault(p, []).append([k, k[:-4] + '_n', round(st[k] / n + m, 1), int(n * 0.98)])
json.dump(out, open(V + '/means.json', 'w'), indent=0)
