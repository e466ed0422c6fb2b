#!/usr/bin/env python3
"""Authoring-time: spec/data/cover_{norm,full}.json, for every production of the grammar up to eight texts (lists of
grammar symbols) whose parse uses it: the harness draws from these, so that each production is met in every run."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'harness'))
import gen

for kind in ('norm', 'full'):
    G, rng = gen.Grammar(kind), random.Random(7)
    n = 1 + max(r[2] for r in G.rules)
    cover = [[] for _ in range(n)]
    seen = set()
    for r in sorted(G.rules, key=lambda r: -G.rcost[r[2]]):
        for k in range(1500):
            if len(cover[r[2]]) >= 8:
                break
            t = G.text_with_rule(r, rng, plain=k % 4 != 3 or k > 300)
            if not t or len(t) > 30:
                continue
            t = [x for x in t if x != 'PRIVATE_EOF_MARK']
            u = G.uses(t)
            if u and tuple(t) not in seen:
                seen.add(tuple(t))
                for i in u:
                    if i == r[2] or len(cover[i]) < 8:
                        cover[i].append(t)
    names = {r[2]: r for r in G.rules}
    print(kind, 'without a text:', [names[i] for i in range(n) if i in names and not cover[i]])
    cover = [sorted(c, key=len)[:8] for c in cover]
    json.dump(cover, open(os.path.join(gen.DATA, 'cover_%s.json' % kind), 'w'), separators=(',', ':'))
