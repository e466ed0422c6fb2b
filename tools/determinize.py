#!/usr/bin/env python3
"""Authoring-time tool: subset construction of a flattened NFA (nfa2json.py),
so that TLC can follow one state per letter.  MorphDet.tla makes TLC check the
result against the NFA itself.
usage: determinize.py NFA.json OUT.json"""
import json, sys
n = json.load(open(sys.argv[1]))
S = n['states']
T = n['tokens']
eps = [frozenset(s['eps']) for s in S]
start = eps[n['start'] - 1]
idx, order = {start: 1}, [start]
rows = []
i = 0
while i < len(order):
    cur = order[i]; i += 1
    row = []
    for t in T:
        nxt = set()
        for q in cur:
            for d in S[q - 1]['on'].get(t, []):
                nxt |= eps[d - 1]
        nxt = frozenset(nxt)
        if not nxt:
            row.append(0); continue
        if nxt not in idx:
            idx[nxt] = len(order) + 1; order.append(nxt)
        row.append(idx[nxt])
    rows.append(row)
out = {'tokens': T, 'states': [{'on': r, 'sub': sorted(s),
        'tags': sorted({t for q in s for t in S[q-1]['tags']}), 'attr': sorted({t for q in s for t in S[q-1]['attr']})}
       for s, r in zip(order, rows)]}
json.dump(out, open(sys.argv[2], 'w'), separators=(',', ':'))
print(len(order), 'states')
