#!/usr/bin/env python3
"""Authoring-time tool: write the data files of the specification (spec/data)
from the pinned sources.  The outputs are committed; no check runs this.

usage: mkspecdata.py BUILT_SOURCE_DIR"""
import json, os, re, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
src = sys.argv[1]
D = os.path.join(here, '..', 'spec', 'data')

def word(sel):
    return sel.replace('h', "'").lower()

for kind in ('norm', 'full'):
    g = json.load(open(os.path.join(D, 'grammar_%s.json' % kind)))
    toks = g['tokens']
    idx = {t: i + 1 for i, t in enumerate(toks)}
    act = []
    for st, d in zip(g['act'], g['def']):
        row = [d] * len(toks)
        for t, a in st.items():
            row[idx[t] - 1] = a
        act.append(row)
    rules = []
    for r in g['rules']:
        nd = r['node']
        k = 'top' if nd == ['top'] else 'error' if nd == ['error'] else 'node'
        rules.append({'l': r['lhs'], 'n': len(r['rhs']), 'k': k, 'up': r['lhs'].upper(),
                      'ch': [] if k != 'node' else
                      [{'p': x, 'e': '', 'w': ''} if isinstance(x, int) else
                       {'p': 0, 'e': x, 'w': word(x).upper()} for x in nd]})
    json.dump({'tok': idx, 'act': act, 'goto': g['goto'], 'rules': rules, 'def': g['def']},
              open(os.path.join(D, 'lr_%s.json' % kind), 'w'), separators=(',', ':'))

names = []
t = open(os.path.join(src, 'cmavotab.c')).read()
hdr = open(os.path.join(src, 'cmavotab.h')).read()
ssm = {m.group(1): int(m.group(2)) for m in re.finditer(r'(SSM_\w+) = (-?\d+)', hdr)}
nm = re.search(r'selmao_names\[\]\s*=\s*\{(.*?)\};', t, re.S).group(1)
nm = re.sub(r'/\*.*?\*/', '', nm, flags=re.S)
names = re.findall(r'"([^"]*)"', nm)
tab = {}
for m in re.finditer(r'\{\s*"([^"]+)"\s*,\s*(\w+)\s*,\s*(\w+)\s*,\s*(SSM_\w+)\s*,\s*"((?:[^"\\]|\\.)*)"\s*\}', t):
    w = m.group(1).replace("\\'", "'")
    tab[w] = {'s': m.group(2), 'c': names[ssm[m.group(4)]], 'm': m.group(5).replace("\\'", "'").replace('\\"', '"')}
json.dump(tab, open(os.path.join(D, 'cmavo.json'), 'w'), separators=(',', ':'), sort_keys=True)
print(len(tab), 'cmavo')
for n in ('morf_nfa', 'stag_nfa'):
    subprocess.check_call([sys.executable, os.path.join(here, 'nfa2json.py'), os.path.join(src, n + '.in'),
                           os.path.join(D, n + '.json')])

# Word list: the short rafsi of each word, and the word of each rafsi.
W, OF = {}, {}
for l in open(os.path.join(src, 'reduced_gismu'), encoding='latin-1'):
    g, rs = l[:5].strip(), l.rstrip('\n')[6:18].split()
    W.setdefault(g, []).extend(list(r) for r in rs)
    for r in rs + ([g[:4]] if len(g) == 5 else []):
        OF[r] = g
json.dump({'words': W, 'of': OF}, open(os.path.join(D, 'rafsi.json'), 'w'), separators=(',', ':'), sort_keys=True)
