"""C18 cmafihe glosses every word of any text, in order, in each of its formats."""
import json, os, re
import common, full, gen

RAF = json.load(open(common.DATA + '/rafsi.json'))
CM = json.load(open(common.DATA + '/cmavo.json'))
CMAVO = sorted(CM) if isinstance(CM, dict) else [c[0] if isinstance(c, list) else c for c in CM]
CMAVO = [c for c in CMAVO if re.fullmatch(r"[a-z']+", c)]
WORDS = sorted(RAF['words'])
RAFSI = sorted({''.join(r) for w in WORDS for r in RAF['words'][w] if len(''.join(r)) < 5} | {w[:4] for w in WORDS if len(w) == 5})
CVV = [r for r in RAFSI if re.fullmatch(r"[^aeiou'][aeiou]'?[aeiou]", r)]
GISMU = [w for w in WORDS if len(w) == 5]
CONV = ['sel', 'ter', 'vel', 'xel']
LET = "bcdfgjklmnprstvxzaeiouy'"


def word(rng):
    k = rng.randrange(20)
    if k < 5:
        return rng.choice(CMAVO)
    if k < 8:            # a run of cmavo, with or without pauses
        ws = [rng.choice(CMAVO) for _ in range(rng.choice([2, 2, 3, 4]))]
        return ''.join(('.' if w[0] in 'aeiou' and rng.random() < .85 else '') + w for w in ws)
    if k == 8:           # with pieces that are no words
        return ''.join(rng.choice([rng.choice(CMAVO), rng.choice('bcdfgx') + rng.choice('aeiouy') + "'" + rng.choice('aeiouy'), '.' + rng.choice(["a'y", 'uo', "o'u'e"])])
                       for _ in range(rng.choice([2, 3])))
    if k < 10:
        return rng.choice(GISMU)
    if k < 14:           # lujvo, converted or not
        n = rng.choice([1, 1, 2, 3])
        w = ''
        for j in range(n):
            r = rng.choice(CONV) if rng.random() < .3 else rng.choice(CVV) if j == 0 and rng.random() < .4 else rng.choice(RAFSI)
            g = ''
            if len(r) == 4 and r[2] != "'":
                g = 'y'
            elif r in CVV and j == 0 and rng.random() < .7:
                g = rng.choice('rrn')
            elif rng.random() < .25:
                g = 'y'
            w += r + g
        return w + rng.choice([rng.choice(GISMU), rng.choice(RAFSI), rng.choice(CVV), rng.choice(CVV)])
    if k == 14:          # fu'ivla
        return rng.choice(rng.choice([GISMU, RAFSI]))[:4] + rng.choice(['r', 'r', 'n', 'l']) + rng.choice(['n', '', 'r', '']) + rng.choice(['spageti', 'pitsa', 'nokturni', "ka'o", 'rodo', 'nlenta'])
    if k < 17:           # names
        w = ''.join(rng.choice(['djan', 'lo', 'mi', 'a', 'bau', 'y', 'tcen', "i'o", 'r']) for _ in range(rng.choice([1, 2, 3]))) + rng.choice('nsbrld')
        if rng.random() < .3:
            p = rng.randrange(len(w) + 1)
            w = w[:p] + ',' + w[p:]
        return rng.choice(['', '.']) + w + rng.choice(['', '.'])
    return ''.join(rng.choice(LET) for _ in range(rng.randrange(1, 12)))


SEP = [' '] * 16 + ['\n', '\n\n', '\n\n\n', '  ', '\t', '\r\n', '\r\n\r\n', '\n\r\n', '. ', ', ', '.', '', ' \n \n']
ODD = ['Klama', "MI'e", 'whq', '42', '!', ').', ']', '\r', '\xe9\xff', "ka'Y", ',,', '..', '&%#']


def paren(rng, d=0):
    o = rng.choice('([')
    s = ''.join(rng.choice(['mi ', 'any Text! ', 'x\n', '', paren(rng, d + 1) if d < 2 and rng.random() < .5 else '']) for _ in range(rng.randrange(3)))
    return o + s + (rng.choice([')', ']']) if rng.random() < .3 else {'(': ')', '[': ']'}[o])


def text(rng):
    t = ''
    for _ in range(rng.randrange(1, 9)):
        k = rng.random()
        t += rng.choice(ODD) if k < .05 else paren(rng) if k < .1 else word(rng)
        t += rng.choice(SEP)
    if rng.random() < .03:
        t += rng.choice('([') + 'left open'
    return t


def random_dict(rng):
    """Some of the words and components, some of the places."""
    out = ['broda1:x']
    for w in GISMU:
        if rng.random() < .5:
            out.append(w + ':' + rng.choice(['', 'E']) + w[:3].upper())
        for d in '12345':
            if rng.random() < .15:
                out.append(w + d + ':' + rng.choice(['', 'D;', 'A;', 'S;']) + w[:2] + d)
    for r in RAFSI:
        if rng.random() < .5:
            out.append('%' + r + ':' + r.upper())
        if rng.random() < .1:
            d = rng.choice('2345')
            out.append('%' + r + d + ':' + rng.choice(['', 'P;']) + r + d)
    for c in CMAVO:
        if rng.random() < .7:
            out.append(c + ':' + c.upper())
        if rng.random() < .7:
            out.append('+' + c + ':' + 'X' + c)
    for _ in range(60):
        a, b = rng.choice(CMAVO), rng.choice(CMAVO)
        out += [a + b + ':two', '+' + a + b + ':TWO'][:rng.choice([1, 2])]
        if b[0] in 'aeiou':
            out.append(a + '.' + b + ':paused')
    rng.shuffle(out)
    return out


def related(t, d):
    """What of the dictionary d the text can ask for."""
    ks = set()
    for run in re.findall(r"[a-z'.]+", t):
        n = len(run)
        for a in range(n):
            for b in range(a + 1, min(n, a + 60) + 1):
                s = run[a:b]
                for k in (s, '+' + s, '%' + s):
                    if k in d:
                        ks.add(k)
                    for c in '2345':
                        if k + c in d:
                            ks.add(k + c)
    return ks


def check(ctx):
    rng = ctx.rng
    ctx.build()
    dicts = [(ctx.dict, full.readdb(ctx.dict))]
    for k in range(ctx.pick(2, 8)):
        db = full.builddb(ctx, 'c%d' % k, random_dict(rng))
        dicts.append((db, full.readdb(db)))
    fixed = [w for w in CMAVO] + [c + k for c in CONV for k in ('klama', 'broda', 'mamyklama', 'kla', 'yselklama')]
    plan = []
    for db, d in dicts:
        for n in range(ctx.pick(1500, 8000)):
            plan.append((text(rng), db, d))
        for a in range(0, len(fixed), 12):
            plan.append((' '.join(fixed[a:a + 12]), db, d))
    # no dictionary; longer texts; the text in a file
    plan += [(text(rng), os.path.join(ctx.scratch, 'none.dat'), {}) for _ in range(ctx.pick(200, 2000))]
    plan += [(''.join(text(rng) + rng.choice(SEP) for _ in range(rng.choice([8, 15]))), db, d) for db, d in dicts for _ in range(ctx.pick(25, 300))]
    plan += [(t, dicts[0][0], dicts[0][1]) for t in ('', ' ', '\n', '\n\n', '(', ')', '.', "'")]
    files = os.path.join(ctx.scratch, 'texts')
    os.makedirs(files)
    jobs, obs = [], []
    for n, (t, db, d) in enumerate(plan):
        t = t.replace('\0', '')
        f = ['text', 'text', 'latex', 'block'][n % 4]
        w = rng.choice([80, 80, 80, 79, 40, 20, 10, 1, 0, 120])
        args = {'text': [], 'latex': ['-l'], 'block': ['-b'] + ([] if w == 80 else ['-w', str(w)])}[f]
        inp = t
        if n % 20 == 7:
            args, inp = args + [os.path.join(files, str(n))], 'le broda'
            with open(args[-1], 'w', encoding='latin-1', newline='') as g:
                g.write(t)
        jobs.append((['cmafihe'] + args, inp, db))
        ks = related(t, d)
        obs.append({'text': list(t), 'fmt': f, 'width': w, 'dict': sorted([k, d[k]] for k in ks),
                    'bare': sorted([k, d[k][2:]] for k in ks if re.match('[A-Z];', d[k]))})
    res = ctx.run(jobs)
    for o, (st, out, err) in zip(obs, res):
        o.update(rc=st, out=out, err=err)
    for a in range(0, len(obs), 6000):
        part = obs[a:a + 6000]
        out, st = ctx.tlc('TraceCmafihe', 'INIT Init\nNEXT Next\nINVARIANT Conserved\nINVARIANT NoEmpty\nCHECK_DEADLOCK FALSE\n', {'obs.json': json.dumps(part)})
        ctx.cov['traces_validated_against_impl'] += len(part)
        for m in common.mismatches(out):
            o = part[m['i'] - 1]
            ctx.violation('%s of %s' % (m['what'], json.dumps(''.join(o['text']))),
                          {'text': ''.join(o['text']), 'format': o['fmt'], 'width': o['width'], 'specified': m['exp'],
                           'got': {'rc': o['rc'], 'out': o['out'], 'err': o['err']}})
    ctx.cov['texts'] = len(obs)
    for o in obs[:3]:
        ctx.sample({'text': ''.join(o['text']), 'format': o['fmt'], 'out': o['out'][:300]})
    return ctx.finish('model_checking')
