"""C14 the dictionary compiler: a database is what its definitions say, however they are split up."""
import json, os, re, itertools
import common

RAF = json.load(open(common.DATA + '/rafsi.json'))
# lines that concern each other: a place of a lujvo, its special forms, its components, another lujvo of them
SHORT = ['soirsai:a', 'soirsai1:D;b', 'soirsai1n:c', 'soirsai1v:d', 'sonci+sanmi1:e', 'sonci+sanmi1t:f', 'soirsai1:D;g',
         'sonsai1:h', 'soirsai2:i', 'broda1n:j', 'broda1:k', '# broda1:l', 'no colon', 'soirsai1n:m:n']


def histories(ctx):
    rng = ctx.rng
    H = []
    lens = [0, 1, 2] + ([3] if ctx.thorough else [])
    for n in lens:
        for ls in itertools.product(SHORT, repeat=n):
            # where one run or file ends and the next begins
            for cut in itertools.product((0, 1, 2), repeat=max(0, n - 1)):
                H.append(cutup(ls, cut))
    for _ in range(ctx.pick(2500, 20000)):
        n = rng.choice([3, 3, 4, 5])
        H.append(cutup([rng.choice(SHORT) for _ in range(n)], [rng.choice((0, 0, 1, 2)) for _ in range(n - 1)]))
    src = []
    for f in ('extradict', 'places.dat', 'patterns'):
        src += [l.rstrip('\n') for l in open(os.path.join(ctx.bdir, f), encoding='latin-1')]
    gis = [l.split('\n')[0] for l in open(os.path.join(ctx.bdir, 'gismu_cmavo.dict'), encoding='latin-1')] if os.path.exists(os.path.join(ctx.bdir, 'gismu_cmavo.dict')) else []
    words = sorted(RAF['words'])
    lujvo = ['soirsai', 'klamyseljai', 'fagysri', 'jbobau', 'brivla', 'gerkyzda', 'selklama', 'xekri', 'mamypatfu', 'soijyxlavau']
    raf = [''.join(r) for w in words for r in RAF['words'][w] if len(r) == 3] + [w[:4] for w in words if len(w) == 5]

    def word():
        k = rng.randrange(9)
        if k < 3:
            return rng.choice(lujvo)
        if k < 5:
            return rng.choice(words)
        if k < 7:
            w = ''.join(rng.choice(raf) + rng.choice(['', '', 'y', 'r', 'n']) for _ in range(rng.choice([1, 2, 2, 3]))) + rng.choice(words + raf)
            if rng.random() < .15:
                p = rng.randrange(len(w))
                w = w[:p] + rng.choice("abcdefgilmnoprstuvxyz'hqwAK") + w[p:]
            return w
        if k == 7:
            return rng.choice(['zei', "le'e", '*5aia', 'jai', 'BAI', 'klama+mi', 'KLAMAI', 'klamyseljai', '', 'x' * 6, 'jbofi\'e', '7'])
        return '+'.join(rng.choice(words) for _ in range(2))

    def line(pool):
        k = rng.randrange(22)
        w = rng.choice(pool)
        if k < 12:
            d = rng.choice(['', '1', '2', '1', '0', '5', '12'])
            c = rng.choice(['', '', 'n', 'v', 'a', 'q', 't', 'x']) if d else ''
            v = rng.choice(['', 'D;', 'A;', '@']) + rng.choice(['thing', 'go(es)', 'x', '', w, 'a b', '\xe9\xff', 'x\ty'])
            return w + d + c + ':' + v + rng.choice(['', '', ':note', ':', '\r', ' '])
        if k < 14:
            return rng.choice(['#', '!', ';', ' #', '\t!']) + w + '1:x'
        if k == 14:
            return rng.choice(['', ' ', '\t ', '\x0b\x0c', '\r'])
        if k == 15:
            return rng.choice([w, ' ' + w, '\xe9', w + ' x', 'a\0:b', '\0a:b', 'a:b\0c:d'])
        if k == 16:
            return ' ' * rng.randrange(3) + w + rng.choice(['1', '', ' 1']) + ' :' + rng.choice(['', 'v'])
        if k == 17:
            n = rng.choice([253, 254, 255, 256, 257])
            return rng.choice([w[:5] + 'x' * max(0, n - 5 - 1) + rng.choice('ab1') + ':v', w + '1:' + 'v' * n,
                               ''.join(rng.choice(raf) for _ in range(n // 3 - 1)) + 'klama1:v', ':' + 'v' * n, 'k' * n])
        if k == 18:
            return ':' + w
        return rng.choice(src)
    for _ in range(ctx.pick(2500, 20000)):
        pool = [word() for _ in range(rng.choice([1, 2, 3]))]
        n = rng.choice([1, 3, 6, 10, 15])
        H.append(cutup([line(pool) for _ in range(n)], [rng.choice((0, 0, 0, 0, 1, 2)) for _ in range(n - 1)], rng))
    # passages of the dictionary as it is shipped
    for _ in range(ctx.pick(60, 600)):
        f = rng.choice([src, src, gis] if gis else [src])
        n = rng.choice([20, 40, 80])
        a = rng.randrange(max(1, len(f) - n))
        H.append(cutup(f[a:a + n], [1 if rng.random() < .03 else 2 if rng.random() < .03 else 0 for _ in range(n - 1)]))
    # files with many entries (more than a byte counts)
    for _ in range(ctx.pick(3, 20)):
        pool = [word() for _ in range(60)]
        H.append(cutup([line(pool) for _ in range(rng.choice([300, 420]))], []))
    return H


def cutup(ls, cut, rng=None):
    """lines -> runs, each a list of files, each a list of lines"""
    runs = [[[]]]
    for k, l in enumerate(ls):
        runs[-1][-1].append(l)
        c = cut[k] if k < len(cut) else 0
        if c == 1:
            runs[-1].append([])
        elif c == 2:
            runs.append([[]])
    return runs


def b(s):
    return [ord(c) for c in s]


def check(ctx):
    ctx.build()
    H = histories(ctx)
    ctx.rng.shuffle(H)
    work = os.path.join(ctx.scratch, 'db')
    os.makedirs(work)
    obs = [{'runs': []} for _ in H]
    for step in range(max(len(h) for h in H)):
        jobs, idx = [], []
        for k, h in enumerate(H):
            if step >= len(h):
                continue
            names = []
            for n, f in enumerate(h[step]):
                p = os.path.join(work, '%d_%d' % (k, n))
                with open(p, 'w', encoding='latin-1', newline='') as g:
                    t = '\n'.join(f) + ('\n' if f else '')
                    g.write(t[:-1] if f and (k + n) % 5 == 0 and f[-1] else t)
                names.append(p)
            jobs.append((['smujajgau', os.path.join(work, '%d.db' % k)] + names, b''))
            idx.append(k)
        res = ctx.run(jobs)
        for k, (st, out, err) in zip(idx, res):
            try:
                with open(os.path.join(work, '%d.db' % k), 'rb') as g:
                    f = list(g.read())
            except OSError:
                f = []
            msgs = []
            for m in re.finditer(r'^(Line \[(.*?)\] does not contain a colon|Definition of \[(.*?)\] is too long, ignored)$', err, re.M | re.S):
                msgs.append({'t': 'nocolon', 's': b(m.group(2))} if m.group(2) is not None else {'t': 'long', 's': b(m.group(3))})
            obs[k]['runs'].append({'files': [[b(l) for l in f_] for f_ in H[k][step]], 'rc': st, 'msgs': msgs, 'file': f})
    for a in range(0, len(obs), 4000):
        part = obs[a:a + 4000]
        out, st = ctx.tlc('TraceDict', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', {'obs.json': json.dumps(part)})
        ctx.cov['traces_validated_against_impl'] += len(part)
        for m in common.mismatches(out):
            k = a + m['i'] - 1
            txt = lambda x: ''.join(map(chr, x))
            exp = m['exp']
            if m['what'] in ('file', 'theory'):
                exp = sorted([txt(p), txt(v)] for p, v in exp)
            r = obs[k]['runs'][min(m['step'], len(H[k])) - 1]
            ctx.violation('%s run %d of %s' % (m['what'], m['step'], json.dumps(H[k])[:300]),
                          {'runs': H[k], 'step': m['step'], 'what': m['what'], 'specified': exp, 'rc': r['rc'],
                           'file': txt(r['file']), 'msgs': r['msgs']})
    ctx.cov['histories'] = len(H)
    ctx.cov['definitions'] = sum(len(f) for h in H for r in h for f in r)
    for h in H[:3]:
        ctx.sample({'runs': h})
    return ctx.finish('model_checking')
