"""Generators of Lojban texts.  Everything here only proposes inputs; what the
analyser should do with them is decided by the specification."""
import json, os, re
from common import DATA

CMAVO = json.load(open(os.path.join(DATA, 'cmavo.json')))
SEL = {}
for _w, _v in sorted(CMAVO.items()):
    SEL.setdefault(_v['s'], []).append(_w)
WORDS = sorted(CMAVO)
GISMU = "klama broda brode zarci prenu cukta mlatu gerku tavla djuno nelci bajra blanu barda zdani dunda citka sutra melbi jbena cusku mrilu catlu prami viska cinmo xamgu".split()
LUJVO = "zbasai jbobau selci'e brodybroda nolraitru brivla tosyma'u ninyma'u kalselkla cmaxirma tavla'a mlasmacu".split()
FUIVLA = "spageti djarspageti cidjrspageti tci'ile iglu alga uiski kuarka".split()
NAMES = "djan. alis. meris. lojbab. stivn. robin. .ainctain. .uilm. katrinas.".split()
BRIVLA = GISMU + LUJVO + FUIVLA


class Grammar:
    def __init__(self, kind='norm'):
        self.kind = kind
        g = json.load(open(os.path.join(DATA, 'grammar_%s.json' % kind)))
        self.lr = json.load(open(os.path.join(DATA, 'lr_%s.json' % kind)))
        self.rules = [(r['lhs'], r['rhs'], i) for i, r in enumerate(g['rules']) if 'error' not in r['node']]
        self.by = {}
        for r in self.rules:
            self.by.setdefault(r[0], []).append(r)
        self.nt = set(self.by)
        INF = 10 ** 6
        cost = {n: INF for n in self.nt}
        height = {n: INF for n in self.nt}
        ch = True
        while ch:
            ch = False
            for l, rhs, _ in self.rules:
                c = sum(cost[x] if x in cost else 1 for x in rhs)
                h = 1 + max([height.get(x, 0) for x in rhs] + [0])
                if c < cost[l]:
                    cost[l] = c
                    ch = True
                if h < height[l]:
                    height[l] = h
                    ch = True
        self.cost, self.height = cost, height
        self.rcost = {r[2]: sum(cost[x] if x in cost else 1 for x in r[1]) for r in self.rules}
        # parents: how to reach a nonterminal from the start symbol
        self.parents = {}
        for r in self.rules:
            for k, x in enumerate(r[1]):
                if x in self.nt:
                    self.parents.setdefault(x, []).append((r, k))
        self.used = {}
        # distance from the start
        d = {'all': 0}
        q = ['all']
        while q:
            n = q.pop(0)
            for l, rhs, _ in self.by[n]:
                for x in rhs:
                    if x in self.nt and x not in d:
                        d[x] = d[n] + 1
                        q.append(x)
        self.dist = d

    def expand(self, sym, budget, rng, out):
        stack = [(sym, budget)]
        while stack:
            s, b = stack.pop()
            if s not in self.nt:
                out.append(s)
                continue
            cand = [r for r in self.by[s] if self.rcost[r[2]] <= max(b, self.cost[s])]
            w = [1.0 / (1 + self.used.get(r[2], 0)) ** 0.5 for r in cand]
            r = rng.choices(cand, w)[0]
            self.used[r[2]] = self.used.get(r[2], 0) + 1
            slack = max(0, b - self.rcost[r[2]])
            parts = []
            nts = [k for k, x in enumerate(r[1]) if x in self.nt]
            share = {k: 0 for k in nts}
            for _ in range(min(slack, 60)):
                if nts:
                    share[rng.choice(nts)] += max(1, slack // 60)
            for k, x in enumerate(r[1]):
                parts.append((x, (self.cost[x] if x in self.cost else 1) + share.get(k, 0)))
            stack.extend(reversed(parts))

    def text_with_rule(self, rule, rng, plain=False):
        """Terminals of a text whose derivation uses the given rule (in a context as short as there is)."""
        left, right = [], []
        mid = []
        for x in rule[1]:
            self.expand(x, (self.cost.get(x, 1)) + rng.choice([0, 0, 1, 3]), rng, mid)
        self.used[rule[2]] = self.used.get(rule[2], 0) + 1
        n = rule[0]
        while n != 'all':
            ps = [p for p in self.parents[n] if p[0][0] in self.dist and self.dist[p[0][0]] < self.dist[n]]
            if not ps or rng.random() < 0.15:
                ps = [p for p in self.parents[n] if p[0][0] in self.dist]
            if plain:
                near = [p for p in self.parents[n] if p[0][0] in self.dist and (self.dist[p[0][0]] < self.dist[n] or rng.random() < .1)]
                side = [sum(self.cost.get(x, 1) for j, x in enumerate(p[0][1]) if j != p[1]) + rng.choice([0, 0, 0, 1, 2]) for p in near]
                ps = [p for p, c in zip(near, side) if c == min(side)] or ps
            r, k = rng.choice(ps)
            self.used[r[2]] = self.used.get(r[2], 0) + 1
            l, rr = [], []
            for x in r[1][:k]:
                self.expand(x, self.cost.get(x, 1) + rng.choice([0, 0, 1]), rng, l)
            for x in r[1][k + 1:]:
                self.expand(x, self.cost.get(x, 1) + rng.choice([0, 0, 1]), rng, rr)
            left = l + left
            right = right + rr
            n = r[0]
            if len(left) + len(right) + len(mid) > 120:
                return None
        return left + mid + right

    def uses(self, terms):
        """The productions in the parse of a list of terminals, None if it has none."""
        if 'IMPOSSIBLE_TOKEN' in terms:
            return None
        L = self.lr
        st, i, ended, used = [1], 0, False, set()
        while True:
            at = i >= len(terms)
            s = '$end' if ended else 'PRIVATE_EOF_MARK' if at else terms[i]
            a = L['act'][st[-1] - 1][L['tok'][s] - 1] if s in L['tok'] else L['def'][st[-1] - 1]
            if a == -100000:
                return used
            if a == 0:
                return None
            if a > 0:
                st.append(a)
                ended = at
                i += 1
            else:
                r = L['rules'][-a - 1]
                if r['k'] == 'error':
                    return None
                used.add(-a - 1)
                if r['n']:
                    del st[-r['n']:]
                st.append(L['goto'][st[-1] - 1][r['l']])

    def covering(self, rng):
        """For every production a text whose parse uses it (as its grammar, not its words, goes)."""
        if not hasattr(self, 'cover'):
            self.cover = json.load(open(os.path.join(DATA, 'cover_%s.json' % self.kind)))
        return [rng.choice(c) for c in self.cover if c]

    def random_text(self, rng, budget):
        out = []
        self.expand('all', budget, rng, out)
        return out


def any_word(rng):
    r = rng.random()
    if r < 0.6:
        return rng.choice(WORDS)
    if r < 0.9:
        return rng.choice(BRIVLA)
    return rng.choice(NAMES)


def word_for(sym, rng):
    """A surface form for a grammar symbol; '' for markers."""
    if sym.startswith('PRIVATE') or sym in ('$end', 'IMPOSSIBLE_TOKEN'):
        return ''
    if sym == 'BRIVLA':
        return rng.choice(BRIVLA)
    if sym == 'CMENE':
        return rng.choice(NAMES)
    if sym == 'ZO':
        return 'zo ' + any_word(rng)
    if sym == 'ZOI':
        d = rng.choice(['gy', 'ly', 'djan', 'zoi', 'xy'])
        n = rng.randrange(0, 4)
        return '%s %s. %s .%s.' % (rng.choice(['zoi', "la'o"]), d, ' '.join(
            rng.choice(['John', 'la', 'foo', 'le zarci', 'Xyz', 'a-b', 'kluza']) for _ in range(n)), d)
    if sym == 'LOhU':
        return "lo'u %s le'u" % ' '.join(rng.choice([x for x in (any_word(rng),) if x not in ("zo", "le'u", 'zoi', "la'o")] or ['mi'])
                                          for _ in range(rng.randrange(0, 4)))
    if sym == 'BU':
        return rng.choice(['.a', '.e', 'ky', 'broda', 'le', 'djan.', 'ui']) + ' bu'
    if sym == 'ZEI':
        return rng.choice(['le', 'broda', 'djan.', 'ui']) + ' zei ' + rng.choice(['broda', 'klama', 'na', 'djan.'])
    if sym in SEL:
        return rng.choice(SEL[sym])
    return ''


def surface(terms, rng):
    ws = []
    for t in terms:
        w = word_for(t, rng)
        if w:
            ws.append(w)
    return ' '.join(ws)


SPECIAL = "zo lo'u le'u si si sa su zei ba'e za'e bu ui nai cai sai pei ru'e cu'i da'o fu'e fu'o y fa'o zoi la'o".split()


def mutate(words, rng, n=1):
    ws = list(words)
    for _ in range(n):
        k = rng.randrange(5)
        p = rng.randrange(len(ws) + 1)
        if k == 0 and ws:
            del ws[min(p, len(ws) - 1)]
        elif k == 1:
            ws.insert(p, any_word(rng))
        elif k == 2 and len(ws) > 1:
            q = rng.randrange(len(ws))
            p = min(p, len(ws) - 1)
            ws[p], ws[q] = ws[q], ws[p]
        elif k == 3:
            ws.insert(p, rng.choice(SPECIAL))
        elif ws:
            q = rng.randrange(len(ws))
            ws.insert(p, ws[q])
    return ws


def soup(rng, n, special=0.5):
    """Words in no grammatical order, rich in words the preprocessor treats."""
    r = []
    for _ in range(n):
        if rng.random() < special:
            w = rng.choice(SPECIAL)
            if w in ('zoi', "la'o"):
                w = word_for('ZOI', rng)
            r.append(w)
        else:
            r.append(any_word(rng))
    return ' '.join(r)


CONN = ("se te na na'e ja je jo ju nai joi ce fa'u bi'i ga'o ke'i .a .e .o gi'e gi'a ge ga gi gu'e gu'a .i bo ke "
        "pu ba ca vi va ki za'o co'a bai ri'a fi'o fe'e mo'i ze'a ve'i vi'a pa re roi ta'e mai moi by .abu lau tei foi "
        "broda mi ku na'e ca'a ka'e cu'e zi zu fa'a re'u ki'o pi").split()


def conn_soup(rng, n):
    r = []
    while len(r) < n:
        x = rng.random()
        if x < 0.7:
            r.append(rng.choice(CONN))
        elif x < 0.8:
            r += rng.choice(['pu bo', 'ke broda', 'ja pu', 'pa mai', 'pu ja ba gi', 'na ku', "na'e bo", 'je bo', '.i je ba bo',
                             'joi ke', "ge gi", "gi'e pu ke", 'joi gi', "se joi nai gi", "ga'o bi'i ke'i", '.e ba bo']).split()
        elif x < 0.92:
            r.append(rng.choice(WORDS))
        else:
            r.append(any_word(rng))
    return ' '.join(r)


def comment(rng, d=0):
    s = '('
    for _ in range(rng.randrange(0, 5)):
        s += comment(rng, d + 1) if d < 4 and rng.random() < 0.3 else rng.choice(['a', ' ', '\n', 'le broda', '1', '.', "zoi", 'x\n y', ',', '\t', '>'])
    return s + ')'


def layout(text, rng):
    """The same words laid out differently: line breaks, tabs, dots, comments,
    compounds written together, digits, capitals in names."""
    out = []
    for tok in text.split(' '):
        if rng.random() < 0.15:
            out.append(rng.choice(['', '', ' ', '\n']) + comment(rng))
        sep = rng.choice([' ', ' ', ' ', '\n', '\t', '  ', ' .', '. ', ' .\n', '> ', ' > '])
        if rng.random() < 0.12 and out:
            sep = ''
        out.append(sep)
        out.append(tok)
    s = ''.join(out)
    if rng.random() < 0.5:
        s = re.sub(r'\b(no|pa|re|ci|vo|mu|xa|ze|bi|so)\b', lambda m: str('no pa re ci vo mu xa ze bi so'.split().index(m.group(0)))
                   if rng.random() < 0.5 else m.group(0), s)
    if rng.random() < 0.1:
        p = rng.randrange(len(s) + 1)
        s = s[:p] + rng.choice(',,.\'1:07()QhHWqAEc') + s[p:]
    return s


# ---- texts dense in nested constructs and their terminators -----------------
DENSE = {
    'T': [['S'], ['S', 'i', 'S'], ['S', '.i', 'S'], ['to', 'S', 'toi', 'S'], ['doi', 'SU', "do'u", 'S'], ["tu'e", 'S', "tu'u", 'i', 'S'],
          ['S', 'i', 'ja', 'S'], ["ni'o", 'S', 'i', 'bo', 'S']],
    'S': [['SU', 'cu', 'B'], ['SU', 'B'], ['B'], ['SU', 'SU', 'cu', 'B'], ['TE', 'SU', 'cu', 'B'], ['SU', 'cu', 'B', "gi'e", 'B'],
          ['SU', 'cu', 'B', "gi'e", 'B', 'vau', 'TE'], ['gi', 'S', 'gi', 'S'] and ['ge', 'S', 'gi', 'S']],
    'B': [['SB', 'vau'], ['SB', 'SU', 'vau'], ['SB', 'SU', 'SU', 'vau'], ['TE', 'SB', 'TE', 'vau'], ['na', 'SB', 'vau']],
    'TE': [['pu', 'ku'], ["ca", 'SU'], ['fa', 'SU'], ['fi', 'SU'], ['na', 'ku'], ["bau", 'SU'], ['pu', "pa", 'roi', 'ku'], ['fe', 'ku'], ["re'u"] and ["pare'u", 'ku']],
    'SU': [['mi'], ['do'], ['le', 'SB', 'ku'], ['le', 'NUM', 'SB', 'ku'], ['NUM', 'boi', 'le', 'SB', 'ku'], ['NUM', 'SB', 'ku'], ['le', 'SB', 'ku', 'REL'],
           ['le', 'SB', 'REL', 'ku'], ['lo', 'nu', 'S', 'kei', 'ku'], ['SU1', "vu'o", 'REL'], ["lu'a", 'SU', "lu'u"], ['li', 'MEX', "lo'o"], ['la', 'djan.'],
           ['lu', 'S', "li'u"], ['BY', 'boi'], ['mi', 'e', 'SU'], ['mi', 'e', 'bo', 'SU'], ['mi', 'e', 'ke', 'SU', "ke'e"], ["na'e", 'bo', 'SU', "lu'u"],
           ['ge', 'SU', 'gi', 'SU'], ['la', 'SB', 'ku'], ['le', 'SU1', 'SB', 'ku'], ['mi', 'FREE'], ['le', 'SB', 'ku', 'FREE'], ["ko'a", 'xi', 'NUM', 'boi'],
           ["ko'a", 'xi', 'vei', 'MEX', "ve'o"], ['vei', 'MEX', "ve'o", 'le', 'SB', 'ku'], ['MO', 'SB', 'ku'] and ['NUM', 'BY', 'boi', 'SB', 'ku']],
    'SU1': [['mi'], ['do'], ['le', 'SB', 'ku']],
    'FREE': [['sei', 'SB', "se'u"], ['to', 'S', 'toi'], ['soi', 'SU', "se'u"], ['xi', 'NUM', 'boi'], ['doi', 'SU', "do'u"], ["coi", 'la', 'djan.', "do'u"], ['NUM', 'mai']],
    'REL': [['poi', 'S', "ku'o"], ['noi', 'S', "ku'o"], ['pe', 'SU', "ge'u"], ['pe', 'SU', "ge'u", "zi'e", 'poi', 'S', "ku'o"], ['goi', 'SU', "ge'u"]],
    'SB': [['broda'], ['brode'], ['brodi'], ['broda', 'SB'], ['broda', 'je', 'SB'], ['ke', 'SB', "ke'e"], ['broda', 'be', 'SU', "be'o"],
           ['broda', 'be', 'SU', 'bei', 'SU', "be'o"], ['nu', 'S', 'kei'], ["du'u", 'S', 'kei'], ['me', 'SU', "me'u"], ['NUM', 'moi'], ['BY', 'moi'], ["nu'a", 'OP'],
           ['se', 'broda'], ["na'e", 'broda'], ["na'e", 'ke', 'SB', "ke'e"], ['broda', 'co', 'SB'], ['jai', 'broda'], ['broda', 'bo', 'brode'],
           ["gu'e", 'SB', 'gi', 'brode'], ['pu', 'broda'], ['me', 'SU', "me'u", 'SB'], ['broda', 'FREE']],
    'NUM': [['pa'], ['re'], ['pa', 're'], ['ci', 'BY'], ["ro"]],
    'BY': [['by'], ['cy', 'dy'], ["a", 'bu'], ['lau', 'by'], ['tei', 'by', 'cy', 'foi'], ['by', 'pa']],
    'MEX': [['NUM', 'boi'], ['BY', 'boi'], ['NUM', 'boi', 'OP', 'MEX'], ['vei', 'MEX', "ve'o"], ["pe'o", 'OP', 'MEX', 'MEX', "ku'e"], ["ni'e", 'SB', "te'u"],
            ["mo'e", 'SU', "te'u"], ["jo'i", 'NUM', 'boi', 'BY', 'boi', "te'u"], ['fu\'a', 'NUM', 'boi', 'NUM', 'boi', 'OP'], ['MEX', 'bi\'e', 'su\'i', 'MEX']],
    'OP': [["su'i"], ["pi'i"], ["ma'o", 'BY', "te'u"], ["na'u", 'SB', "te'u"], ["se", "su'i"], ["vu'u"]],
}
ELIDABLE = "be'o boi cu do'u fe'u ge'u kei ke'e ku ku'e ku'o li'u lo'o lu'u me'u nu'u se'u te'u toi tu'u vau ve'o".split()


def dense(rng, budget=24, drop=None):
    """A text from DENSE with a random share of its terminators left out."""
    if drop is None:
        drop = rng.choice([0, 0, .2, .5, .8, 1])
    out, stack, left = [], ['T'], budget
    while stack:
        s = stack.pop()
        if s not in DENSE:
            if s in ELIDABLE and rng.random() < drop:
                continue
            out.append(s)
            continue
        opts = DENSE[s]
        if len(out) + len(stack) > left:
            m = min(len(o) for o in opts)
            opts = [o for o in opts[:3] if len(o) <= m + 1 and s not in o] or opts[:1]
        stack.extend(reversed(rng.choice(opts)))
        if len(out) > 80:
            return dense(rng, max(4, budget // 2), drop)
    return ' '.join(out)
