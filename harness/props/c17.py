"""C17 every output format shows the same words, brackets, English and places."""
import gen, full
import props.c16
from props.c16 import GIS, LUJVO, FUIVLA

BAD = {'x': '/', 'xb': '/', 'l': '$\\', 'lb': '$\\', 'g': '/', 'H': ''}
# values that only some formats write as they are
ODD = ['50% & more', 'a_b', 'x^y', 'no. #1', 'less < more', 'gt > lt', 'curly {a}', '# & _', '{', '100%']


def plain(lines, fmt, rng):
    """A dictionary whose English can be told from brackets and the like in this format."""
    out = []
    for l in lines:
        k, v = l.split(':', 1)
        if fmt in ('l', 'lb', 'H') and rng.random() < .08 and k[0] != '*' and not v.startswith(('@', '$', '-')):
            v = v[:2] + rng.choice(ODD) if v[1:2] == ';' else rng.choice(ODD)
        elif rng.random() < .03 and k[0] != '*' and fmt != 'g':
            v = '' if not v.startswith('@') else v
        sign = v.startswith('$')
        if (sign and fmt != 'g') or not any(c in BAD[fmt] for c in v):
            if fmt != 'g' or (not sign and v.strip() == v and '  ' not in v):
                out.append(k + ':' + v)
    return out


def texts(rng, k, odd=True):
    T = []
    for _ in range(k):
        t = full.rich(rng, rng.randrange(2, 24)).split(' ')
        for j, w in enumerate(t):
            if w in ('broda', 'brode', 'klama') and rng.random() < .35:
                t[j] = rng.choice(GIS + LUJVO * 2 + FUIVLA)
        t = ' '.join(t)
        if odd and rng.random() < .1:
            t += ' .i ' + rng.choice(["zoi gy. 100% & _a_ #b c^d .gy.", "zoi gy. {x} .gy. cu broda", "la'o ly. a_b ly. klama"])
        T.append(t)
    return full.usable(T)


def check(ctx):
    rng = ctx.rng
    n = ctx.pick(360, 5000)
    obs = []
    plan = [('l', 79, ()), ('x', 79, ()), ('lb', 79, ()), ('xb', 79, ()), ('xb', 24, ()), ('xb', 200, ('-ie',)), ('g', 79, ()), ('g', 79, ('-ie',))]
    if ctx.tier == 'thorough':
        plan += [('l', 79, ('-ie',)), ('x', 79, ('-ie',)), ('lb', 79, ('-ie',)), ('xb', 1, ()), ('xb', 40, ()), ('xb', 120, ()), ('H', 79, ()), ('lb', 30, ('-re',)), ('g', 79, ('-re',))]
    for k, (fmt, width, opt) in enumerate(plan):
        lines = plain(props.c16.random_dict(rng, rng.choice([.9, .5, .3])), fmt, rng)
        db = full.builddb(ctx, 'd%d' % k, lines)
        T = texts(rng, n if opt == () else n // 2, fmt in ('l', 'lb', 'H'))
        obs += full.validate(ctx, T, db, full.readdb(db), True, (opt,), fmt=fmt, width=width)
    dic = full.readdb(ctx.dict)
    for fmt in ('l', 'lb', 'xb'):
        obs += full.validate(ctx, texts(rng, n // 3, False), ctx.dict, {k: v for k, v in dic.items()}, True, ((),), fmt=fmt)
    ctx.cov['accepted'] = len(obs)
    ctx.cov['formats'] = sorted({o['fmt'] for o in obs})
    for fmt in ctx.cov['formats']:
        o = next(o for o in obs if o['fmt'] == fmt)
        ctx.sample({'format': fmt, 'text': ''.join(o['text']), 'shown': o['ev'][:12]})
    return ctx.finish('model_checking')
