#!/usr/bin/env python3
"""Authoring-time tool: flatten a dfasyn NFA description (block instances,
inline blocks, abbreviations) into an explicit epsilon-NFA, the form in which
the specification (Nfa.tla) simulates it.  The output is committed as
specification data; no check runs this tool on /repo.

usage: nfa2json.py FILE.in OUT.json"""
import json, re, sys

TOK = re.compile(r'->|[A-Za-z0-9_.]+|"[^"]*"|[=|&~!^*?:;()<>,]')
KW = {'state', 'abbrev', 'define', 'tokens', 'prefix', 'block', 'endblock', 'type', 'result', 'earlyresult',
      'attribute', 'attr', 'defattr', 'defresult', 'symbol', 'symresult', 'earlysymresult'}


def lex(text):
    out, passthru = [], False
    for line in text.split('\n'):
        if re.match(r'^%\{\s*$', line):
            passthru = True
            continue
        if re.match(r'^%\}\s*$', line):
            passthru = False
            continue
        if passthru:
            continue
        line = re.sub(r'#.*$', '', line)
        for m in TOK.finditer(line):
            t = m.group(0)
            out.append(('kw', t.lower()) if t.lower() in KW else ('p', t) if re.match(r'^[-=|&~!^*?:;()<>,]', t)
                       else ('s', t.strip('"')))
    out.append(('eof', ''))
    return out


class NFA:
    def __init__(self, text):
        self.t, self.i = lex(text), 0
        self.tokens, self.abbrev, self.blocks = [], {}, {}
        self.last = None            # (block, state): the start state of the machine
        self.results, self.attr = [], []
        self.anon = 0
        self.parse()

    def peek(self): return self.t[self.i]
    def nxt(self):
        r = self.t[self.i]; self.i += 1; return r
    def expect(self, kind, val=None):
        r = self.nxt()
        assert r[0] == kind and (val is None or r[1] == val), (r, kind, val, self.t[self.i-5:self.i+5])
        return r[1]
    def at(self, kind, val=None):
        r = self.peek(); return r[0] == kind and (val is None or r[1] == val)

    def parse(self):
        while not self.at('eof'):
            kw = self.expect('kw')
            if kw == 'tokens':
                while self.at('s'): self.tokens.append(self.nxt()[1])
            elif kw == 'prefix':
                self.nxt()
            elif kw == 'abbrev':
                n = self.expect('s'); self.expect('p', '='); v = [self.expect('s')]
                while self.at('p', '|'):
                    self.nxt(); v.append(self.expect('s'))
                self.abbrev[n] = [y for x in v for y in self.abbrev.get(x, [x])]
            elif kw == 'block':
                self.block()
            else:
                dst = self.results
                if kw in ('attr', 'attribute'):
                    dst = self.attr; kw = self.expect('kw')
                elif kw == 'defattr':
                    dst = self.attr; kw = 'defresult'
                self.result(kw, dst)

    def result(self, kw, dst):
        if kw == 'type':
            self.nxt()
        elif kw == 'defresult':
            dst.append({'kind': 'default', 'value': self.expect('s')})
        elif kw == 'symbol':
            n = self.expect('s'); self.expect('p', '='); dst.append({'kind': 'symbol', 'name': n, 'expr': self.expr()})
        else:
            e = self.expr()
            if self.at('p', '->'):
                self.nxt(); v = self.expect('s')
            else:
                v = e[1]
            dst.append({'kind': 'symresult' if 'sym' in kw else 'result', 'early': kw.startswith('early'), 'expr': e,
                        'value': v})

    # precedence: | lowest, ^, &, ~
    def expr(self):
        e = self.xor()
        while self.at('p', '|'):
            self.nxt(); e = ['or', e, self.xor()]
        return e
    def xor(self):
        e = self.conj()
        while self.at('p', '^'):
            self.nxt(); e = ['xor', e, self.conj()]
        return e
    def conj(self):
        e = self.neg()
        while self.at('p', '&'):
            self.nxt(); e = ['and', e, self.neg()]
        return e
    def neg(self):
        if self.at('p', '~') or self.at('p', '!'):
            self.nxt(); return ['not', self.neg()]
        if self.at('p', '('):
            self.nxt(); e = self.expr(); self.expect('p', ')'); return e
        return ['sym', self.expect('s')]

    # a block: states{name: {'t': [(tok|None, dest)], 'tags': set, 'attr': set}}
    def st(self, b, n):
        return self.blocks[b].setdefault(n, {'t': [], 'tags': set(), 'attr': set()})
    def fresh(self, b):
        self.anon += 1
        n = '#%d' % self.anon; self.st(b, n); return n
    def inst(self, b, master, name):
        for n, s in self.blocks[master].items():
            d = self.st(b, name + '.' + n)
            d['t'] += [(tk, name + '.' + x) for tk, x in s['t']]
            d['tags'] |= s['tags']; d['attr'] |= s['attr']

    def block(self):
        b = self.expect('s'); self.blocks[b] = {}
        while self.at('s') and self.t[self.i+1] == ('p', ':'):
            n = self.nxt()[1]; self.nxt(); self.inst(b, self.expect('s'), n)
        while self.at('kw', 'state'):
            self.nxt(); s = self.expect('s'); self.st(b, s); self.last = (b, s)
            if self.at('p', '('):
                self.nxt(); self.st(b, s)['attr'].add(self.expect('s')); self.expect('p', ')')
            while not (self.at('kw', 'state') or self.at('kw', 'endblock')):
                self.transition(b, s)
        self.expect('kw', 'endblock')

    def transition(self, b, cur):
        while True:
            opts, inl = self.options()
            if inl:
                end = self.fresh(b)
                for o in opts:
                    if o is None:
                        self.st(b, cur)['t'].append((None, end))
                    else:
                        master, i, x = o
                        self.anon += 1
                        nm = '@%d' % self.anon
                        self.inst(b, master, nm)
                        self.st(b, cur)['t'].append((None, nm + '.' + i))
                        self.st(b, nm + '.' + x)['t'].append((None, end))
                cur, opts = end, [None]
            if self.at('p', ';'):
                self.nxt()
                n = self.fresh(b)
                for o in opts: self.edge(b, cur, o, n)
                cur = n
                continue
            if self.at('p', '->'):
                self.nxt()
                while True:
                    d = self.expect('s')
                    for o in opts: self.edge(b, cur, o, d)
                    if self.at('p', ','): self.nxt()
                    else: break
                return
            self.expect('p', '=')
            n = self.fresh(b)
            for o in opts: self.edge(b, cur, o, n)
            self.st(b, n)['tags'].add(self.expect('s'))
            return

    def edge(self, b, a, tok, d):
        self.st(b, d)
        for tk in (self.abbrev.get(tok, [tok])):
            assert tk is None or tk in self.tokens, tk
            self.st(b, a)['t'].append((tk, d))

    def options(self):
        opts, inl = [], False
        while True:
            if self.at('p', '<'):
                inl = True
                self.nxt(); m = self.expect('s'); self.expect('p', ':'); i = self.expect('s'); self.expect('p', '->')
                x = self.expect('s'); self.expect('p', '>'); opts.append((m, i, x))
            elif self.at('s'):
                opts.append(self.nxt()[1])
            else:
                opts.append(None)
            if self.at('p', '|'): self.nxt()
            else: return opts, inl

    def flat(self):
        b, s0 = self.last
        ss = self.blocks[b]
        order, seen, work = [], set(), [s0]
        while work:
            x = work.pop(0)
            if x in seen: continue
            seen.add(x); order.append(x)
            work += [d for _, d in ss[x]['t']]
        idx = {n: i + 1 for i, n in enumerate(order)}
        # epsilon closures are folded in: eps[i] lists the states reached for free
        st = []
        for n in order:
            clo, w = [], [n]
            while w:
                x = w.pop()
                if x in clo: continue
                clo.append(x); w += [d for tk, d in ss[x]['t'] if tk is None]
            tr = {}
            for tk, d in ss[n]['t']:
                if tk is not None: tr.setdefault(tk, set()).add(idx[d])
            st.append({'name': n, 'eps': sorted(idx[c] for c in clo), 'on': {k: sorted(v) for k, v in tr.items()},
                       'tags': sorted(ss[n]['tags']), 'attr': sorted(ss[n]['attr'])})
        return {'tokens': self.tokens, 'start': 1, 'states': st, 'results': self.results, 'attrs': self.attr}


if __name__ == '__main__':
    n = NFA(open(sys.argv[1]).read()).flat()
    json.dump(n, open(sys.argv[2], 'w'), separators=(',', ':'))
    print(len(n['states']), 'states', sum(len(v) for s in n['states'] for v in s['on'].values()), 'transitions')
