#!/usr/bin/env python3
"""Authoring-time tool: turns a grammar (rpc2x.y, or its no-elision variant)
into the JSON snapshot used by the TLA+ parser specification.
usage: mkgrammar.py SRCDIR OUT.json      (SRCDIR: a /repo checkout)
Runs at authoring time only: no check calls it, so a change of rpc2x.y does
not change the specification."""
import json, os, re, subprocess, sys, tempfile
import xml.etree.ElementTree as ET

MARK = re.compile('START_EK|START_GIHEK|START_GUHEK|START_JEK|END_JEK|START_JOIK|END_JOIK|START_GEK|START_BAI|EK_KE|EK_BO|JEK_KE|JEK_BO|JOIK_KE|JOIK_BO|I_JEKJOIK|I_BO|GIHEK_KE|GIHEK_BO|NAhE_BO|NAhE_time|NAhE_space|NAhE_CAhA|NA_KU|NUMBER_MAI|NUMBER_MOI|NUMBER_ROI|START_TENSE|END_TENSE|EOF_MARK')


def load(src, full):
    text = open(os.path.join(src, 'rpc2x.y'), encoding='latin-1').read()
    head, body = text.split('\n%%\n', 1)
    lines = body.split('\n')
    if full:
        lines = [l.replace('/* SG */', 'START_GEK') for l in lines]
        lines = [l for l in lines if not re.search(r'/\* ET [A-Za-z]+', l)]
    # templates in textual order of the rules
    body = '\n'.join(lines)
    tmpl = []
    cur = None
    nocomm = body.replace('/* error */', '!error')
    nocomm = re.sub(r'/\* ET ([A-Zh]+) \*/', r'?\1', nocomm)
    nocomm = re.sub(r'/\*.*?\*/', lambda m: ' ' + '\n' * m.group(0).count('\n'), nocomm, flags=re.S)
    for l in nocomm.split('\n'):
        m = re.match(r'^[ \t]*([a-z0-9A-Z_]+)[ \t]*:(.*)$', l)
        m2 = re.match(r'^[ \t]*\|(.*)$', l)
        if m:
            cur, ch = m.group(1), m.group(2).split()
        elif m2:
            ch = m2.group(1).split()
        else:
            continue
        if '!error' in ch or 'error' in ch:
            # error rules: no node template
            tmpl.append((cur, None, [c for c in ch if c != '!error']))
            continue
        t, rhs, j = [], [], 0
        for c in ch:
            if c.startswith('?'):
                t.append(c[1:])
            else:
                j += 1
                rhs.append(c)
                if not MARK.search(c):
                    t.append(j)
        tmpl.append((cur, t, rhs))
    with tempfile.TemporaryDirectory() as d:
        y = os.path.join(d, 'g.y')
        open(y, 'w', encoding='latin-1').write(head + '\n%%\n' + body)
        x = os.path.join(d, 'g.xml')
        r = subprocess.run(['bison', '--xml=' + x, '-o', os.path.join(d, 'g.c'), y], capture_output=True, text=True)
        if r.returncode:
            raise SystemExit(r.stderr)
        root = ET.parse(x).getroot()
    rules = {}
    for r in root.find('grammar').find('rules'):
        if r.get('usefulness') == 'useless-in-grammar':
            continue
        n = int(r.get('number'))
        rules[n] = (r.findtext('lhs'), [s.text for s in r.find('rhs') if s.tag == 'symbol'])
    # match templates (bison drops useless nonterminals)
    useful = {r[0] for r in rules.values()}
    tmpl = [t for t in tmpl if t[0] in useful]
    assert len(tmpl) == len(rules) - 1, (len(tmpl), len(rules))
    out = []
    for n in range(1, len(rules)):
        lhs, rhs = rules[n]
        tl, tt, tr = tmpl[n - 1]
        assert tl == lhs and tr == rhs, (n, lhs, rhs, tl, tr)
        out.append({'lhs': lhs, 'rhs': rhs, 'node': tt if tt is not None else ['error']})
    out[0]['node'] = ['top']
    act, deflt, goto = [], [], []
    for s in root.find('automaton'):
        a, g, d = {}, {}, 0
        A = s.find('actions')
        for t in A.find('transitions'):
            if t.get('type') == 'shift':
                a[t.get('symbol')] = int(t.get('state')) + 1
            else:
                g[t.get('symbol')] = int(t.get('state')) + 1
        for e in A.find('errors'):
            a[e.get('symbol')] = 0
        for r in A.find('reductions'):
            if r.get('enabled') != 'true':
                continue
            rule = r.get('rule')
            rn = 100000 if rule == 'accept' else int(rule)
            if r.get('symbol') == '$default':
                d = -rn
            else:
                assert r.get('symbol') not in a or a[r.get('symbol')] < 0
                a[r.get('symbol')] = -rn
        a.pop('error', None)
        act.append(a); deflt.append(d); goto.append(g)
    toks = [t.get('name') for t in root.find('grammar').find('terminals')]
    return {'tokens': toks, 'rules': out, 'act': act, 'def': deflt, 'goto': goto}


if __name__ == '__main__':
    src, out = sys.argv[1:3]
    g = {'norm': load(src, False), 'full': load(src, True)}
    for k, v in g.items():
        print(k, len(v['rules']), len(v['act']), sum(map(len, v['act'])), file=sys.stderr)
        json.dump(v, open(out.replace('.json', '_%s.json' % k), 'w'), separators=(',', ':'), sort_keys=True)
