"""C13 making lujvo: every tanru gives the right lujvo, in order of merit."""
import json, re
import common

RAF = json.load(open(common.DATA + '/rafsi.json'))
OPTS = {'-l': 'long', '-b': 'brod', '-a': 'all', '-S': 'noscore', '-A': 'noann', '-R': 'norafsi', '-q': 'quiet'}


def tanru(ctx):
    rng = ctx.rng
    W = sorted(RAF['words'])
    some = [w for w in W if RAF['words'][w]]
    cm = [w for w in W if len(w) < 5]
    T = []

    def odd(w):
        k = rng.randrange(7)
        if k == 0:
            return w.upper()
        if k == 1:
            return w.replace("'", 'h')
        if k == 2:
            return ''.join(c.upper() if rng.random() < .4 else c for c in w).replace("'", rng.choice("hH'"))
        return w
    # every word first, in the middle and last
    for w in W:
        a, b = rng.choice(some), rng.choice(some)
        T.append(([w, a], rng.sample(sorted(OPTS), rng.choice([0, 0, 1, 2]))))
        T.append(([a, w], rng.sample(sorted(OPTS), rng.choice([0, 0, 1, 2]))))
        if ctx.thorough or rng.random() < .5:
            T.append(([a, w, b], ['-a']))
        if ctx.thorough:
            T.append(([w, b], ['-a', '-l']))
            T.append(([b, a, w], ['-a', '-l']))
    # the leading CVC that may fall off: CVC rafsi, then what could be a word with its last consonant
    cvc = [w for w in some if any(re.match('^[^aeiou][aeiou][^aeiou]$', ''.join(r)) for r in RAF['words'][w])]
    for _ in range(ctx.pick(1500, 12000)):
        n = rng.choice([2, 2, 3, 3, 4])
        T.append(([rng.choice(cvc) for _ in range(n - 1)] + [rng.choice(some)], rng.choice([[], ['-a'], ['-a', '-l'], ['-a', '-b', '-l']])))
    for _ in range(ctx.pick(1500, 12000)):
        n = rng.choice([0, 1, 2, 2, 3, 3, 4, 4, 5, 6])
        w = [rng.choice(rng.choice([W, some, some, cm, ['broda', 'brode', 'brodi', 'brodo', 'brodu']])) for _ in range(n)]
        w = [odd(x) for x in w]
        if rng.random() < .12 and w:
            w[rng.randrange(n)] = rng.choice(['xyz', '', 'klam', 'klama.', 'klamai', 'KLAMAI', "fa'oi", 'zo', "a'u", 'a', 'klame', "'a'a'", 'hu', 'mi', 'do'])
        o = rng.sample(sorted(OPTS), rng.choice([0, 1, 1, 2, 3]))
        T.append((w, o))
    for _ in range(ctx.pick(150, 800)):
        T.append(([rng.choice(some) for _ in range(rng.choice([8, 10, 14, 25, 49]))], rng.sample(sorted(set(OPTS) - {'-a'}), rng.choice([0, 1, 2]))))
    return T


def size(w, o):
    n = 1
    for k, x in enumerate(w):
        rs = RAF['words'].get(x.lower().replace('h', "'"), [])
        c = len([r for r in rs if k < len(w) - 1 or r[-1] in 'aeiou'])
        n *= max(1, c + (1 if '-l' in o else 0))
    return n


def check(ctx):
    T = tanru(ctx)
    ctx.rng.shuffle(T)
    jobs, keep = [], []
    for w, o in T:
        part = size(w, o) > ctx.pick(120, 300)
        if part and '-a' in o:
            o = [x for x in o if x != '-a']
        args = list(w)
        for x in o:
            args.insert(ctx.rng.randrange(len(args) + 1), x)
        jobs.append((['jvocuhadju'] + args, ''))
        keep.append((w, o, part))
    res = ctx.run(jobs)
    obs = []
    for (w, o, part), (st, out, err) in zip(keep, res):
        obs.append({'words': [list(x) for x in w], 'o': {v: k in o for k, v in OPTS.items()}, 'part': part, 'rc': st,
                    'out': out.split('\n')[:-1] if out.endswith('\n') else out.split('\n') if out else [],
                    'err': err.split('\n')[:-1] if err.endswith('\n') else err.split('\n') if err else []})
    for b in range(0, len(obs), 4000):
        out, st = ctx.tlc('TraceLujvo', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', {'obs.json': json.dumps(obs[b:b + 4000])})
        ctx.cov['traces_validated_against_impl'] += len(obs[b:b + 4000])
        for m in common.mismatches(out):
            k = b + m['i'] - 1
            ctx.violation('%s: %s' % (m['what'], ' '.join(jobs[k][0])), {'args': jobs[k][0], 'what': m['what'], 'specified': m['exp'], 'observed': obs[k]})
    ctx.cov['tanru'] = len(obs)
    ctx.cov['lujvo_listed'] = sum(len(o['out']) for o in obs if o['rc'] == 0)
    # what was made is a lujvo for the other programs too, and comes apart again
    made = set()
    for (w, o, part), x in zip(keep, obs):
        if x['rc'] == 0 and 'broda'[:4] not in ' '.join(w).lower():
            for l in x['out']:
                m = re.match(r"^[*! ]?\s*(-?\d+ )?\s*([a-z']{5,})$", l)
                if m and not l.endswith(':') and m.group(2) not in RAF['words']:
                    made.add((m.group(2), '+'.join(y.lower().replace('h', "'") for y in w)))
    made = sorted(made)
    ctx.rng.shuffle(made)
    made = made[:ctx.pick(4000, 60000)]
    r = ctx.run([(['vlatai', '-el'], '\n'.join(x for x, _ in made) + '\n')])[0]
    lines = r[1].split('\n')
    for (x, comps), l in zip(made, lines):
        f = [y.strip() for y in l.split(':')]
        if len(f) < 3 or f[0] != x or f[1] != 'lujvo' or f[2] != '%s [%s]' % (x, comps):
            ctx.violation('vlatai -el %s' % x, {'lujvo': x, 'made from': comps, 'vlatai': l})
    ctx.cov['classified_again'] = len(made)
    for x in made[:4]:
        ctx.sample({'lujvo': x[0], 'of': x[1]})
    return ctx.finish('model_checking')
