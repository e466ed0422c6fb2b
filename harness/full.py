"""Recording runs of jbofihe with the full outputs and validating them
against the specification (TraceGloss.tla)."""
import json, os, re, html
import gen, pipe
from common import mismatches

SHAPE = {')': '(', ']': '[', '}': '{', '>': '<', '>>': '<<', '(': '(', '[': '[', '{': '{', '<': '<', '<<': '<<',
         r'\{': '{', r'\}': '{', r'$\langle$': '<', r'$\rangle$': '<', r'$\lceil$': 'ceil', r'$\rceil$': 'ceil', r'$\lfloor$': 'floor', r'$\rfloor$': 'floor',
         r'{\large{} $\triangleleft$}': '<<', r'{\large{} $\triangleright$}': '<<', r'\TL{}': '<<', r'\TR{}': '<<'}
CLOSERS = {')', ']', '}', '>', '>>', r'\}', r'$\rangle$', r'$\rceil$', r'$\rfloor$', r'{\large{} $\triangleright$}', r'\TR{}'}
LEFT = r'{\reflectbox{\zd\char233}}'
BR = '|'.join(re.escape(x) for x in sorted(SHAPE, key=len, reverse=True) if x not in '{}<>>(<<)' or x in '()[]')
TOK = {
    'H': re.compile(r'<B>(?P<w>.*?)</B>|<I>(?P<g>.*?)</I>|<U><FONT SIZE=-1>\[(?P<t>.*?):\] </FONT></U>'
                    r'|(?P<b>&lt;&lt;|&lt;|&gt;&gt;|&gt;|[()\[\]{}])<SUB><FONT SIZE="-3">(?P<n>\d+)</FONT></SUB>'
                    r'|<FONT SIZE=\+2>(?P<s>&quot;)</FONT>|(?P<a>&lt;-)|\s+|<P><P>|(?P<x>.)', re.S),
    'x': re.compile(r"(?P<s><-(?=[ <(\[{^>)\]}]|$)|``|'')|/(?P<g>[^/]*)/|\[(?P<t>(?:[^\s\[\](){}<>/^]+\d(?:\.\.)? \(|#\d+-|jai\+<tag>1: \().*?):\]|(?P<b>[()\[\]{}<>^])"
                    r"|\s+|(?P<w>[^\s\[\](){}<>^/]+?(?=''|[\s\[\](){}<>^/]|$))|(?P<x>.)", re.S),
    'l': re.compile(r'\\textsl\{\\footnotesize\{\}\[\}(?P<t>.*?)\\textsl\{\\footnotesize\{\}~:\] \}|\\mbox\{\\textbf\{(?P<w>(?:\\.|[^\\}])*)\}\\/\}|\\textsl\{\\small\{\}(?P<g>(?:\\.|[^\\}])*)\}'
                    r'|(?P<b>' + BR + r')\{\}\$\^\{\\textit\{\\scriptsize (?P<n>\d+)\}\}\$ |(?P<s>``|\'\'|' + re.escape(LEFT) + r')|\s+|(?P<x>.)', re.S),
    'lb': re.compile(r'\\BT\[t\]\{l\}\{\\bf (?P<L>.*?)\}\\\\\{\\it (?P<E>.*?)\}\\\\\[-3pt\]\{\\ISS\{\}(?P<T>.*?)\}\\ET\n'
                     r'|(?P<b>' + BR + r')\{\}\$\^\{\\IS\{(?P<n>\d+)\}\}\$ |\s+|(?P<x>.)', re.S)}
BODY = {'H': re.compile(r'\A<HTML>\n<HEAD>\n<TITLE>Lojban translation</TITLE>\n<BODY>\n(.*)</BODY>\n\Z', re.S),
        'x': re.compile(r'\A(.*)\n\Z', re.S),
        'l': re.compile(r'\A\\documentclass.*\\begin\{document\}\n(.*)\\end\{document\}\n\Z', re.S),
        'lb': re.compile(r'\A\\documentclass.*\\begin\{document\}\n\\small\n(.*)\\end\{document\}\n\Z', re.S)}


def unhtml(s):
    return ('?UNESCAPED ' if re.search(r'[<>]|&(?!(lt|gt|amp|quot|#\d+);)', s) else '') + html.unescape(s)


def untex(s):
    if re.search(r'[\^&{}%_#<>]', re.sub(r'\\[\^&{}%_#]|\$[<>]\$', '', s)):
        return '?UNESCAPED ' + s
    return re.sub(r'\\([\^&{}%_#])', r'\1', re.sub(r'\$([<>])\$', r'\1', s))


def events(out, glosses=True, fmt='H'):
    """Output in some format -> what it shows, as in Formats.tla."""
    if fmt == 'xb':
        return [out]
    if fmt == 'g':
        hide = str.maketrans('[](){}<>', '\x01\x02\x03\x04\x05\x06\x07\x08')
        back = {v: k for k, v in hide.items()}
        return [x.translate(back) for x in pipe.items(re.sub(r'/[^/]*/', lambda m: m.group().translate(hide), out))]
    m = BODY[fmt].match(out)
    if not m:
        return [['?', out[:200]]]
    un = {'H': unhtml, 'x': lambda s: s}.get(fmt, untex)
    ev = []
    for t in TOK[fmt].finditer(m.group(1)):
        d = {k: v for k, v in t.groupdict().items() if v is not None}
        if 'w' in d:
            w = un(d['w'])
            if ev and ev[-1][0] == 'w':
                ev[-1][1] += ' ' + w
            else:
                ev.append(['w', w])
        elif 'g' in d:
            if glosses and d['g']:
                ev.append(['g', un(d['g'])])
        elif 't' in d:
            s = d['t']
            if fmt == 'l':
                pieces = re.findall(r'\\textsl\{\\footnotesize\{\}(.*?)\}\n', s, re.S)
                if ''.join('\\textsl{\\footnotesize{}%s}\n' % x for x in pieces) != s:
                    ev.append(['?', s])
                s = ''.join(pieces)
            s = un(s)
            if not glosses:
                s = re.sub(r'jai\+<tag>1: \([^()]*?#(\d+)\)', r'jai+<tag>1: (#\1)', s)
                s = re.sub(r' \((?!#)[^()]*\)\n', '', s)
            ev.append(['t', s.replace('\n', '')])
        elif 'L' in d:
            T = d['T'].replace('}\\\\[-3pt]{\\ISS{}', '\n')
            ev.append(['B', untex(d['L']), untex(d['E'].replace(LEFT, '$<$-')), untex(T)])
        elif 'b' in d:
            b = html.unescape(d['b']) if fmt == 'H' else d['b']
            if b == '^':
                ev.append(['b', '^'])
            else:
                ev.append(['c' if b in CLOSERS else 'o', SHAPE[b]] + ([d['n']] if 'n' in d else []))
        elif 's' in d:
            ev.append(['s', '<-' if d['s'] == LEFT else un(d['s'])])
        elif 'a' in d:
            ev.append(['s', '<-'])
        elif 'x' in d:
            ev.append(['?', d['x']])
    return ev


ARGS = {'H': ['-H'], 'x': ['-x'], 'l': ['-l'], 'lb': ['-l', '-b'], 'xb': ['-x', '-b'], 'g': ['-g']}


CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT AllowCultural = FALSE
CONSTANT Glosses = %s
"""


def readdb(path):
    """The dictionary a database file holds (what the file must hold is decided by C14)."""
    d = open(path, 'rb').read()
    n = int.from_bytes(d[:4], 'big')
    p, dic = 4 + 2 * n, {}
    for k in range(n):
        a, b = d[4 + 2 * k], d[5 + 2 * k]
        dic[d[p:p + a].decode('latin-1')] = d[p + a + 1:p + a + 1 + b].decode('latin-1')
        p += a + b + 2
    return dic


def validate(ctx, texts, dictfile, dic, glosses, optsets=((),), batch=3000, fmt='H', width=79):
    jobs, meta = [], []
    for t in texts:
        for o in optsets:
            jobs.append((['jbofihe'] + ARGS[fmt] + (['-w', str(width)] if width != 79 else []) + list(o), t, dictfile))
            meta.append((t, o))
    res = ctx.run(jobs)
    obs, om = [], []
    for (t, o), r, j in zip(meta, res, jobs):
        if r[0] >= 1000:
            ctx.violation('crash: %s < %r' % (' '.join(j[0]), t), {'text': t, 'status': r[0]})
        if r[0] == 0:
            obs.append({'text': list(t), 'ie': '-ie' in o, 'full': '-re' in o, 'fmt': fmt, 'width': width, 'ev': events(r[1], glosses, fmt)})
            om.append((t, j[0]))
    for b in range(0, len(obs), batch):
        part = obs[b:b + batch]
        out, st = ctx.tlc('TraceGloss', CFG % ('TRUE' if glosses else 'FALSE'), {'obs.json': json.dumps(part), 'dict.json': json.dumps(dic)})
        ctx.cov['traces_validated_against_impl'] += len(part)
        for m in mismatches(out):
            t, o = om[b + m['i'] - 1]
            exp, got = m['exp'], part[m['i'] - 1]['ev']
            k = 0
            if fmt == 'xb' and isinstance(exp, list):
                exp, got = exp[0].split('\n'), got[0].split('\n')
            if isinstance(exp, list):
                while k < min(len(exp), len(got)) and exp[k] == got[k]:
                    k += 1
            ctx.violation('%s: %s < %r' % (m['what'], ' '.join(o), t),
                          {'text': t, 'options': o, 'at': k, 'specified': exp[k:k + 5] if isinstance(exp, list) else exp, 'observed': got[k:k + 5]})
    return obs


# ---- texts rich in what the full outputs depend on --------------------------
RICH = {
    'T': [['S'], ['S'], ['S', '.i', 'S'], ['S', '.i', 'JEK', 'S'], ['S', '.i', 'JEK', 'STAG', 'bo', 'S'], ['S', '.i', 'STAG', 'bo', 'S'], ['FREE', 'S'],
          ['TS'], ['SU'], ['REL'], ['PU', "tu'e", 'S', "tu'u"], ['GEK', 'S', 'gi', 'S']],
    'S': [['SU', 'cu', 'B'], ['SU', 'B'], ['B'], ['SU', 'SU', 'cu', 'B'], ['TE', 'SU', 'cu', 'B'], ['SU', 'cu', 'B', 'GIHEK', 'B'],
          ['SU', 'cu', 'B', 'GIHEK', 'bo', 'B', 'vau', 'TE'], ['SU', 'cu', 'B', 'GIHEK', 'STAG', 'bo', 'B'], ['SU', 'SU', 'SU', 'cu', 'B'], ['SU', 'GEK', 'B', 'gi', 'B'],
          ['SU', 'cu', 'B', 'GIHEK', 'ke', 'B', "ke'e", 'vau', 'TE'], ['SU', 'SB', 'GIHEK', 'SB', 'vau', 'TE'], ['STAG', 'gi', 'S', 'GI', 'S'], ['JOIK', 'gi', 'SU', 'GI', 'SU', 'cu', 'B'],
          ['SU', 'zo\'u', 'S'], ['GEK', 'S', 'GI', 'S', 'TE'], ["nu'i", 'GEK', 'SU', 'SU', "nu'u", 'GI', 'SU', 'SU', "nu'u", 'cu', 'B'],
          ['SU', 'cu', 'B', 'GIHEK', 'bo', 'B', 'SU', 'vau', 'GIHEK', 'B', 'SU', 'SU', 'vau'], ['SU', 'cu', 'B', 'GIHEK', 'STAG', 'bo', 'B', 'TE', 'vau', 'GIHEK', 'ke', 'B', "ke'e", 'SU', 'vau', 'GIHEK', 'B', 'SU', 'vau'],
          ['SU', 'cu', 'GEK', 'SB', 'vau', 'GI', 'B', 'SU', 'vau', 'GIHEK', 'bo', 'B', 'SU', 'vau'], ['SU', 'cu', 'B', 'GIHEK', 'B', 'TE', 'vau', 'GIHEK', 'B', 'SU', 'vau']],
    'B': [['SB', 'vau'], ['SB', 'SU', 'vau'], ['SB', 'SU', 'SU', 'vau'], ['TE', 'SB', 'TE', 'vau'], ['na', 'SB', 'vau'], ['SB', 'TE', 'SU', 'vau'], ['PU', 'SB', 'vau'],
          ['SB', 'TE', 'TE', 'SU', 'vau']],
    'TS': [['TE'], ['TE', 'SU']],
    'TE': [['PU', 'ku'], ['PU', 'SU'], ['FA', 'SU'], ['FA', 'SU'], ['fai', 'SU'], ['na', 'ku'], ['BAI', 'SU'], ['PU', 'pa', 'roi', 'ku'], ['FA', 'ku'], ["pare'u", 'ku'], ["fi'a", 'SU'],
           ["fi'o", 'SB', "fe'u", 'SU'], ["nu'i", 'SU', 'SU', "nu'u"], ["nu'i", 'BAI', 'SU', "nu'u"], ['BAI', 'JEK', 'PU', 'SU']],
    'FA': [['fa'], ['fe'], ['fi'], ['fo'], ['fu'], ['fai'], ["ba'e", 'fe']],
    'PU': [['pu'], ['ba'], ['ca'], ['pu', 'zi'], ['ba', 'nai', 'zu'], ['vi'], ['pu', 'zi', 'vu'], ['ze\'a'], ["co'a"], ['fa\'a'], ["mo'i", "fa'a"], ['pu', "ta'e"], ['na\'e', 'pu'], ['pu', 'JEK', 'ba'],
           ["ca'a"], ['ki'], ['cu\'e'], ["ze'i", 'pu'], ['ru\'u', 'vi'], ["fe'e", "co'a"], ["di'i"], ['BAI'], ['pu', "ba'o"], ["ba'e", 'pu'], ['re', 'roi'], ["ve'a", "ti'a"], ['zi']],
    'BAI': [['bai'], ['mu\'i'], ['ri\'a'], ['se', 'mu\'i'], ['te', 'bau'], ['bau', 'nai'], ['na\'e', 'bai'], ['se', 'bai', 'ki'], ["ba'e", 'bai'], ['se', "ba'e", 'bai'], ['pi\'o'], ['cau'], ['sepi\'o']],
    'STAG': [['pu'], ['ba'], ['BAI'], ['PU'], ['ca', 'JEK', 'pu'], ['mu\'i']],
    'GIHEK': [["gi'e"], ["gi'a"], ["na", "gi'u"], ["gi'o", 'nai'], ["se", "gi'u", 'nai'], ["na", "se", "gi'e", 'nai'], ["gi'i"], ["gi'e", 'ui']],
    'EK': [['.a'], ['.e'], ['.o', 'nai'], ['na', '.u'], ['se', '.u'], ['ji'], ['na', '.a', 'nai']],
    'JEK': [['je'], ['ja'], ['jo'], ['ju'], ['na', 'je'], ['je', 'nai'], ['se', 'ju', 'nai'], ["je'i"], ['na', 'ju'], ['na', 'jo', 'nai'], ['na', 'ja'], ['se', 'ju']],
    'GEK': [['ge'], ['ga'], ['go'], ['gu'], ["ge'i"], ['ge', 'nai'], ['se', 'gu'], ['se', 'gu', 'nai'], ['ga', 'nai'], ['go', 'nai'], ["ba'e", 'ge'], ['gu', 'nai']],
    'GUHEK': [["gu'e"], ["gu'a"], ["gu'o"], ["gu'u"], ["gu'i"], ["gu'e", 'nai'], ['se', "gu'u"], ["gu'u", 'nai']],
    'GI': [['gi'], ['gi'], ['gi', 'nai']],
    'JOIK': [['joi'], ['ce'], ['se', 'ce\'o'], ['joi', 'nai'], ["ga'o", "bi'i", "ke'i"], ["fa'u"]],
    'SU': [['mi'], ['do'], ['ti'], ['le', 'SB', 'ku'], ['le', 'NUM', 'SB', 'ku'], ['NUM', 'boi', 'le', 'SB', 'ku'], ['NUM', 'SB', 'ku'], ['le', 'SB', 'ku', 'REL'],
           ['le', 'SB', 'REL', 'ku'], ['lo', 'nu', 'S', 'kei', 'ku'], ['SU1', "vu'o", 'REL'], ["lu'a", 'SU', "lu'u"], ["lu'a", 'REL', 'SU', "lu'u"], ['li', 'MEX', "lo'o"], ['la', 'djan.'],
           ['lu', 'S', "li'u"], ['BY', 'boi'], ['mi', 'EK', 'SU'], ['mi', 'EK', 'bo', 'SU'], ['mi', 'EK', 'ke', 'SU', "ke'e"], ["na'e", 'bo', 'SU', "lu'u"], ['mi', 'JOIK', 'SU'],
           ['GEK', 'SU', 'GI', 'SU'], ['la', 'SB', 'ku'], ['le', 'SU1', 'SB', 'ku'], ['le', 'SU1', 'NUM', 'SB', 'ku'], ['mi', 'FREE'], ['le', 'SB', 'ku', 'FREE'], ["ko'a", 'xi', 'NUM', 'boi'], ['NUM', 'SU1'],
           ["ke'a"], ["ke'a"], ["ce'u"], ['la', 'REL', 'djan.'], ['le', 'REL', 'SB', 'ku'], ['le', 'SU1', 'REL', 'SB', 'ku'], ['le', 'NUM', 'le', 'SB', 'ku', 'ku'], ['zo', 'broda'], ["le", "PU", "SB", "ku"], ["le", "BAI", "SB", "ku"],
           ["lu'e", 'SU'], ["ba'e", 'mi'], ['mi', 'ui'], ['mi', 'EK', 'STAG', 'bo', 'do'], ["zoi gy. foo bar .gy."], ["ke'a", 'REL'], ['tu\'a', "ke'a"]],
    'SU1': [['mi'], ['do'], ["ke'a"], ['le', 'SB', 'ku']],
    'FREE': [['sei', 'SB', "se'u"], ['sei', 'SU', 'cu', 'SB', "se'u"], ['to', 'S', 'toi'], ['soi', 'SU', "se'u"], ['xi', 'NUM', 'boi'], ['doi', 'SU', "do'u"], ["coi", 'la', 'djan.', "do'u"], ['NUM', 'mai'],
             ['doi', 'REL', 'SB', "do'u"], ['doi', 'djan.', 'REL'], ['ui'], ['.a\'o', 'nai'], ['.ui', 'sai'], ['.ui', 'nai', 'ru\'e', 'nai'], ["da'o"], ["da'o", 'nai'], ["cu'i"], ['xo', 'mai'], ["y"], ["fu'o"]],
    'REL': [['poi', 'S', "ku'o"], ['noi', 'S', "ku'o"], ['pe', 'SU', "ge'u"], ['pe', 'SU', "ge'u", "zi'e", 'poi', 'S', "ku'o"], ['goi', 'SU', "ge'u"], ['pe', 'BAI', 'SU', "ge'u"], ['pe', 'PU', 'ku', "ge'u"],
            ['poi', 'SU', 'cu', 'B', "ku'o"], ['poi', "ke'a", 'B', "ku'o"], ['noi', 'SB', "ke'a", "ku'o"], ["ne", "PU", 'SU', "ge'u"], ['poi', 'S', "ku'o", "zi'e", 'noi', 'S', "ku'o"],
            ['poi', 'SU', "zo'u", 'S', "ku'o"], ["pe", "fe", 'SU', "ge'u"]],
    'SB': [['SE', 'broda'], ['brode'], ['klama'], ['tavla'], ['U', 'SB'], ['broda', 'JEK', 'SB'], ['ke', 'SB', "ke'e"], ['SE', 'broda', 'be', 'SU', "be'o"],
           ['broda', 'be', 'SU', 'bei', 'TE', "be'o"], ['klama', 'be', 'TE', 'bei', 'SU', 'bei', 'SU', "be'o"], ['nu', 'S', 'kei'], ["du'u", 'S', 'kei'], ['me', 'SU', "me'u"], ['NUM', 'moi'], ['BY', 'moi'], ["nu'a", 'OP'],
           ['SE', 'U'], ["na'e", 'U'], ["na'e", 'ke', 'SB', "ke'e"], ['SE', 'ke', 'SB', "ke'e"], ['U', 'co', 'SB'], ['jai', 'U'], ['U', 'bo', 'U'], ['U', 'JEK', 'bo', 'U'], ['U', 'JEK', 'ke', 'SB', "ke'e"],
           ['GUHEK', 'SB', 'GI', 'U'], ["na'e", 'GUHEK', 'SB', 'GI', 'U'], ['PU', 'broda'], ['me', 'SU', "me'u", 'SB'], ['broda', 'FREE'], ['jai', 'PU', 'U'], ['jai', 'BAI', 'U'], ['SE', 'jai', 'BAI', 'U'], ["go'i"], ['SE', "go'i"],
           ['U', 'U'], ['U', 'U', 'U'], ['broda', 'co', 'brode', 'co', 'klama'], ['nu', 'JEK', 'ka', 'S', 'kei'], ['nu', 'nai', 'S', 'kei'], ['SE', 'nu', 'S', 'kei'], ['U', 'cei', 'U'], ['na', 'SB'],
           ['broda', 'zei', 'brode'], ["ba'e", 'klama'], ['jai', 'SE', 'klama', 'be', 'SU', "be'o"], ['U', 'JOIK', 'U'], ['NUM', 'si\'e'], ['jai', 'gau', 'U', 'be', 'SU', 'be\'o']],
    'U': [['broda'], ['klama'], ['tavla'], ['SE', 'brode'], ["na'e", 'broda'], ['jai', 'klama'], ['nu', 'S', 'kei'], ['ke', 'SB', "ke'e"], ['broda', 'be', 'SU', "be'o"], ['SE', 'SE', 'klama'], ['jai', 'ri\'a', 'broda'],
          ['zbasai'], ['jbobau'], ['spageti'], ["selci'e"], ['klama', 'zei', 'mi'], ["ba'e", 'SE', 'klama'], ['klama', 'ui'], ["go'i"], ['se', "ba'e", 'klama'], ['NUM', 'moi'], ['moi'] and ['NUM', 'mei']],
    'SE': [['se'], ['te'], ['ve'], ['xe'], [], [], []],
    'NUM': [['pa'], ['re'], ['pa', 're'], ['ci', 'BY'], ["ro"], ['pa', 'ui', 're'], ['su\'o']],
    'BY': [['by'], ['cy', 'dy'], ["a", 'bu'], ['lau', 'by'], ['tei', 'by', 'cy', 'foi'], ['by', 'pa'], ['broda', 'bu']],
    'MEX': [['NUM', 'boi'], ['BY', 'boi'], ['NUM', 'boi', 'OP', 'MEX'], ['vei', 'MEX', "ve'o"], ["pe'o", 'OP', 'MEX', 'MEX', "ku'e"], ["ni'e", 'SB', "te'u"],
            ["mo'e", 'SU', "te'u"], ["jo'i", 'NUM', 'boi', 'BY', 'boi', "te'u"], ["fu'a", 'NUM', 'boi', 'NUM', 'boi', 'OP'], ['GEK', 'MEX', 'gi', 'NUM'], ['NUM', 'EK', 'NUM']],
    'OP': [["su'i"], ["pi'i"], ["ma'o", 'BY', "te'u"], ["na'u", 'SB', "te'u"], ["se", "su'i"], ["vu'u"], ['su\'i', 'JEK', "pi'i"], ['GUHEK', "su'i", 'gi', "pi'i"]],
}


def rich(rng, budget=24, drop=None):
    if drop is None:
        drop = rng.choice([0, .2, .5, .8, 1])
    for _ in range(20):
        out, stack = [], ['T']
        while stack and len(out) <= 80:
            s = stack.pop()
            if s not in RICH:
                if s in gen.ELIDABLE and rng.random() < drop:
                    continue
                out.append(s)
                continue
            opts = RICH[s]
            if len(out) + len(stack) > budget:
                opts = [o for o in opts[:4] if s not in o] or opts[:1]
            stack.extend(reversed(rng.choice(opts)))
        if not stack:
            return ' '.join(out)
        budget = max(3, budget // 2)
    return 'broda'


def usable(texts):
    """pei nai is a known finding of another property; brackets and the like in comments and quotations confuse nothing here but the reading of the output."""
    return [t for t in dict.fromkeys(texts) if not re.search(r"pei\W+(y\W+)?nai|[<\[(]", t)]


def builddb(ctx, name, lines):
    src = os.path.join(ctx.scratch, name + '.src')
    db = os.path.join(ctx.scratch, name + '.db')
    with open(src, 'wb') as f:
        f.write(''.join(l + '\n' for l in lines).encode('latin-1'))
    r = ctx.run([(['smujajgau', db, src], b'')])
    if r[0][0] != 0:
        raise RuntimeError('smujajgau: %r' % (r[0],))
    return db


def emptydb(ctx):
    return builddb(ctx, 'empty', [])
